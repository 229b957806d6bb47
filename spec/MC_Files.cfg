SPECIFICATION Spec
CONSTANTS MaxCells = 3
  Emit = TRUE
INVARIANTS SeqOk AllOk IdxOk NodesOk WaysOk EmitTests
CHECK_DEADLOCK FALSE
