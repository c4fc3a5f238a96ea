SPECIFICATION Spec
CONSTANTS Emitting = TRUE
INVARIANT Inv
