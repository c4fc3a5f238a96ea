SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Emitting = TRUE
INVARIANT Inv
