CONSTANTS
  Emitting = TRUE
  MaxErr = 3
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
