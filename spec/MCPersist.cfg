SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emitting = TRUE
  Rests = {}
INVARIANT Inv
