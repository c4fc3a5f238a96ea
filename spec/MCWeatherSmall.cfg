SPECIFICATION Spec
CONSTANTS
  Axes = "small"
  Emitting = FALSE
  Lim = 3
INVARIANTS Inv Inv2
