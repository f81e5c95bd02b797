INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 7
  F = 2
  P = 101
  H = 1
