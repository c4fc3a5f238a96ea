SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Emitting = TRUE
INVARIANT Inv
