SPECIFICATION Spec
CONSTANTS MaxCells = 4
  Emit = FALSE
INVARIANTS SeqOk AllOk IdxOk NodesOk WaysOk
CHECK_DEADLOCK FALSE
