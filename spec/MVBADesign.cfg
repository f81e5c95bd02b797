CONSTANTS
  N = 4
  F = 1
  Rounds = 2
  Values = {"a", "b"}
SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
