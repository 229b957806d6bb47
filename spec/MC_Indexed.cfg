SPECIFICATION XSpec
CONSTANTS MaxCells = 2
  Lengths = {0, 1, 2}
  Emit = FALSE
  MaxFaults = 1
VIEW XView
INVARIANTS ResultOk PartOk WorksOk SurfaceOk IndexOk CacheOk
CHECK_DEADLOCK FALSE
