SPECIFICATION Spec
CONSTANTS NPositions = 2
          Shapes <- ShapesQuick
          MaxFrames = 2
          MaxElectrons = 2
INVARIANTS SumsRight PatternRight FieldRight CropLaws DenseLaw BinLaw MaskLaw FieldLaw
CHECK_DEADLOCK FALSE
