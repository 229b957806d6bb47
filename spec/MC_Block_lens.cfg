SPECIFICATION Spec
CONSTANTS Theme = "lens"
  Size = 3
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
