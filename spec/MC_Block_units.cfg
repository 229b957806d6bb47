SPECIFICATION Spec
CONSTANTS Theme = "units"
  Size = 0
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
