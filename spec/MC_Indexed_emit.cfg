SPECIFICATION XSpec
CONSTANTS MaxCells = 2
  Lengths = {0, 1, 2}
  Emit = TRUE
  MaxFaults = 1
VIEW XView
ACTION_CONSTRAINT EmitCalls
CHECK_DEADLOCK FALSE
