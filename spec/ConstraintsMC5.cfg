CONSTANTS
  Names = {"a", "b", "c"}
  K = 5
  Multi = 3
  Emitting = FALSE
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
