SPECIFICATION Spec
CONSTANTS Theme = "kv"
  Size = 5
  Emit = TRUE
INVARIANTS Right EmitTests
CHECK_DEADLOCK FALSE
