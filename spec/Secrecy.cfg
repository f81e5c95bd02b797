INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  F = 1
  P = 101
  H = 2
