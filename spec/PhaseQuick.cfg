SPECIFICATION Spec
CONSTANTS
  Values = {0, 1}
  Shapes <- QuickShapes
  Amplitudes = {0, 1}
  Waves = 2
  Regularizations = {0, 1}
INVARIANTS Mean Linear Moves Constants Transposed Turns Inverse
CHECK_DEADLOCK FALSE
