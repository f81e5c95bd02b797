CONSTANTS
  Msgs <- MsgsW
  Cap = 2
  Wild = {1}
SPECIFICATION Spec
INVARIANT Intact
INVARIANT Delivered
CHECK_DEADLOCK FALSE
