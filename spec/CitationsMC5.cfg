CONSTANTS
  Emitting = TRUE
  K = 5
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
