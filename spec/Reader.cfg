CONSTANTS
  Need = 5
  Buf = 2
  Longest = 7
  Recording = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Faithful Exact Position Progress
PROPERTY Refines
CHECK_DEADLOCK FALSE
