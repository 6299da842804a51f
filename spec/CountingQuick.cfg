SPECIFICATION Spec
CONSTANTS
  Sizes <- MCSizes
  PixelValues = {0, 1, 2}
  DarkValues = {1}
  Exponents <- MCExponents
  Thresholds <- MCThresholds
INVARIANTS Right Apart Within
CHECK_DEADLOCK FALSE
