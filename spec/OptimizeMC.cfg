CONSTANTS
  Emitting = TRUE
  M = 2
  T = 3
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
