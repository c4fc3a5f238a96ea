SPECIFICATION Spec
CONSTANTS
  Axes = "big"
  Emitting = TRUE
  Lim = 7
INVARIANTS Inv Inv2
