CONSTANTS
  N = 4
  F = 1
  Rounds = 3
  Values = {"a", "b"}
SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
