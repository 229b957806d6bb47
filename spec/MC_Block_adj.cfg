SPECIFICATION Spec
CONSTANTS Theme = "adj"
  Size = 2
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
