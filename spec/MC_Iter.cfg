SPECIFICATION Spec
CONSTANTS MaxLen = 4
  Emit = FALSE
VIEW View
INVARIANTS InOrder InRange Announced NthIsSkipNext LastIsEnd
PROPERTIES Independent
CHECK_DEADLOCK FALSE
