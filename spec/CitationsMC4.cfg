CONSTANTS
  Emitting = TRUE
  K = 4
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
