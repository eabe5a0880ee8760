CONSTANTS
  N = 4
  Mode = "sum"
  Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
