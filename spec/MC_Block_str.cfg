SPECIFICATION Spec
CONSTANTS Theme = "str"
  Size = 0
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
