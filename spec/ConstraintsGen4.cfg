CONSTANTS
  Names = {"a", "b", "c"}
  K = 4
  Multi = 2
  Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
