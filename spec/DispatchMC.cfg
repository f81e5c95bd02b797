CONSTANTS
  Arrivals <- ArrV
  Read <- ReadV
  Cap = 1
  Atomic = TRUE
SPECIFICATION Spec
INVARIANT Intact
INVARIANT Delivered
INVARIANT NeverBlocked
CHECK_DEADLOCK FALSE
