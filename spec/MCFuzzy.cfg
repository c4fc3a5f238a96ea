SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Emitting = TRUE
INVARIANT Inv
