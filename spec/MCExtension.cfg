SPECIFICATION Spec
CONSTANTS
  MaxPts = 2
  Emitting = TRUE
INVARIANT Inv
