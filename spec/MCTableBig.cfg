SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  Big = TRUE
VIEW View
INVARIANTS Inv
PROPERTY FrameProp
ACTION_CONSTRAINT EmitT
