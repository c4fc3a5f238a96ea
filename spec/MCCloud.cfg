SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emitting = TRUE
INVARIANT Inv
PROPERTY Grow
