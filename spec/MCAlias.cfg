SPECIFICATION Spec
CONSTANTS
  Emitting = TRUE
  Depth = 3
INVARIANT Inv
PROPERTY Frame
PROPERTY Effect
