CONSTANTS
  Need = 256
  Buf = 32
  Longest = 4096
  Recording = TRUE
INIT Init
NEXT Next
INVARIANT Dump
CHECK_DEADLOCK FALSE
