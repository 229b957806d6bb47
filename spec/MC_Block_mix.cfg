SPECIFICATION Spec
CONSTANTS Theme = "mix"
  Size = 2
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
