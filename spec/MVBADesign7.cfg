CONSTANTS
  N = 7
  F = 2
  Rounds = 5
  Values = {"a", "b"}
SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
