SPECIFICATION Spec
CONSTANTS NPositions = 2
          Shapes <- ShapesThorough
          MaxFrames = 1
          MaxElectrons = 2
INVARIANTS SumsRight PatternRight FieldRight CropLaws DenseLaw BinLaw MaskLaw FieldLaw
CHECK_DEADLOCK FALSE
