CONSTANTS
  Theme = "blob"
  Size = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Report
CHECK_DEADLOCK FALSE
