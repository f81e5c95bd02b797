CONSTANTS
  N = 4
  F = 1
  Values = {"a", "b"}
  ProposerHonest = TRUE
SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
