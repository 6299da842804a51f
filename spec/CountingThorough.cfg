SPECIFICATION Spec
CONSTANTS
  Sizes <- MCSizesBig
  PixelValues = {0, 1, 3}
  DarkValues = {1}
  Exponents <- MCExponents
  Thresholds <- MCThresholds
INVARIANTS Right Apart Within
CHECK_DEADLOCK FALSE
