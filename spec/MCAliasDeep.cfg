SPECIFICATION Spec
CONSTANTS
  Emitting = TRUE
  Depth = 4
INVARIANT Inv
PROPERTY Frame
PROPERTY Effect
