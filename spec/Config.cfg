SPECIFICATION Spec
INVARIANTS Closed Joined Apart Dump
PROPERTY Additive
CHECK_DEADLOCK FALSE
