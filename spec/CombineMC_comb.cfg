CONSTANTS
  N = 4
  Mode = "comb"
  Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
