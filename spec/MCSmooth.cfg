SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  Emitting = TRUE
INVARIANT Inv
