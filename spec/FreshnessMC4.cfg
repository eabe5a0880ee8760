CONSTANTS
  Emitting = TRUE
  K = 4
  KeyHash = FALSE
  Stale = FALSE
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
