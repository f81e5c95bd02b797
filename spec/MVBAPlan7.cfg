CONSTANTS
  N = 7
  F = 2
  Rounds = 1
  Values = {"a", "b"}
INIT PInit
NEXT PNext
INVARIANT Safe
CHECK_DEADLOCK FALSE
