SPECIFICATION Spec
CONSTANTS Theme = "mems"
  Size = 3
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
