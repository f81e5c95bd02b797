CONSTANTS
  Msgs <- MsgsV
  Cap = 1
  Wild = {1}
SPECIFICATION Spec
INVARIANT Intact
INVARIANT Delivered
CHECK_DEADLOCK FALSE
