SPECIFICATION Spec
CONSTANTS Theme = "tags"
  Size = 2
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
