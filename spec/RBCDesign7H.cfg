CONSTANTS
  N = 7
  F = 2
  Values = {"a", "b"}
  ProposerHonest = TRUE
SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
