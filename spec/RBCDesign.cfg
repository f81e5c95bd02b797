CONSTANTS
  N = 4
  F = 1
  Values = {"a", "b"}
  ProposerHonest = FALSE
SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
