SPECIFICATION Spec
CONSTANTS Theme = "delta"
  Size = 3
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
