CONSTANTS
  Emitting = TRUE
  K = 2
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
