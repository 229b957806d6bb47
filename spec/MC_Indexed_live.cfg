SPECIFICATION XSpec
CONSTANTS MaxCells = 1
  Lengths = {0, 1}
  Emit = FALSE
  MaxFaults = 1
VIEW XView
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
