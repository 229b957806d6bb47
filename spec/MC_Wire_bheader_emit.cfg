CONSTANTS
  Theme = "bheader"
  Size = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Report
CHECK_DEADLOCK FALSE
