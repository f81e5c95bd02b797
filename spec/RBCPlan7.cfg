CONSTANTS
  N = 7
  F = 2
INIT Init
NEXT Next
INVARIANT Safe
CHECK_DEADLOCK FALSE
