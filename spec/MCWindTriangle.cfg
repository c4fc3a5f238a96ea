SPECIFICATION Spec
CONSTANTS
  N = 2
  Rows = 2
  Emitting = TRUE
INVARIANT Inv
