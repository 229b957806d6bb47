SPECIFICATION Spec
CONSTANTS Theme = "info"
  Size = 0
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
