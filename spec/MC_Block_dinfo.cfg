SPECIFICATION Spec
CONSTANTS Theme = "dinfo"
  Size = 2
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
