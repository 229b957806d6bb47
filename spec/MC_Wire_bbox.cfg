CONSTANTS
  Theme = "bbox"
  Size = 2
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Commute Unknown LastWins Cut
CHECK_DEADLOCK FALSE
