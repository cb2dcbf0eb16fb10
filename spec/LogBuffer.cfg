SPECIFICATION Spec
CONSTANTS
  Start = 4
  MaxPiece = 6
  MaxPieces = 3
  MaxTexts = 1
INVARIANTS Complete Inside
CHECK_DEADLOCK FALSE
