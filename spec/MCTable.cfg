SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  Big = FALSE
VIEW View
INVARIANTS Inv
PROPERTY FrameProp
ACTION_CONSTRAINT EmitT
