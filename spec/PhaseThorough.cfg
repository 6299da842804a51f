SPECIFICATION Spec
CONSTANTS
  Values = {0, 1}
  Shapes <- DeepShapes
  Amplitudes = {0, 1, 2}
  Waves = 4
  Regularizations = {0, 1, 2}
INVARIANTS Mean Linear Moves Constants Transposed Turns Inverse
CHECK_DEADLOCK FALSE
