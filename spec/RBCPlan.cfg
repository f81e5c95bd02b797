CONSTANTS
  N = 4
  F = 1
INIT Init
NEXT Next
INVARIANT Safe
CHECK_DEADLOCK FALSE
