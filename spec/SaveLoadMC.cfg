CONSTANTS
  Names = {"a", "b", "c"}
  K = 4
  Multi = 3
  Emitting = FALSE
INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
