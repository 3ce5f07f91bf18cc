CONSTANT Basis <- AllIdx
INIT Init
NEXT Next
INVARIANT Correct
