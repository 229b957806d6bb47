SPECIFICATION Spec
CONSTANTS MaxLen = 3
  Emit = TRUE
VIEW EmitView
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
