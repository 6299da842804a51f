SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 2
  Shapes <- ShapesMC
  Attributes = {"u"}
  MaxSteps = 3
INVARIANTS Tree Sizes Frame ReadBack Whole Lists
CHECK_DEADLOCK FALSE
