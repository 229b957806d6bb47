SPECIFICATION Spec
CONSTANTS MaxFrames = 2
  Stops = {"ended", "short"}
  Faults = 1
  Emit = TRUE
VIEW EmitView
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
