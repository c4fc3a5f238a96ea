SPECIFICATION Spec
CONSTANTS
  MaxDepth = 4
  MaxRows = 3
VIEW View
INVARIANTS Inv EmitInv
PROPERTY StepProp
