SPECIFICATION Spec
INVARIANTS MultiInv ExpandInv
