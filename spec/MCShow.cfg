SPECIFICATION Spec
CONSTANTS
  WIDE = 15
  HEAD = 5
  LONG = 10
  Emitting = TRUE
INVARIANT Inv
