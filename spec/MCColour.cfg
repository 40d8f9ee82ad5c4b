SPECIFICATION MSpec
CONSTANTS
  MODE = "model"
  MaxLen = 0
INVARIANTS LabelRange LabelOwn LabelFg Monotone BestOne PaintOwn
CHECK_DEADLOCK FALSE
