SPECIFICATION Spec
CONSTANTS Theme = "seq"
  Size = 2
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
