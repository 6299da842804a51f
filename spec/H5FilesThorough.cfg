SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 2
  Shapes <- DeepShapes
  Attributes = {"u"}
  MaxSteps = 4
INVARIANTS Tree Sizes Frame ReadBack Whole Lists
CHECK_DEADLOCK FALSE
