CONSTANTS
  N = 4
  F = 1
  Rounds = 1
  Values = {"a", "b"}
INIT PInit
NEXT PNext
INVARIANT Safe
CHECK_DEADLOCK FALSE
