CONSTANTS
  Emitting = TRUE
  K = 3
  KeyHash = FALSE
  Stale = FALSE
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
