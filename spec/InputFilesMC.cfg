CONSTANTS
  Emitting = TRUE
  MaxN = 3
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
