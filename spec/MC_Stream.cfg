SPECIFICATION Spec
CONSTANTS MaxFrames = 2
  Stops = {"ended", "short"}
  Faults = 1
  Emit = FALSE
VIEW View
INVARIANTS Complete Bounded Forgets FromForgets MmapLike SkipLikeRead
PROPERTIES StopsShow Fused Offsets Forward FaultsShow
CHECK_DEADLOCK FALSE
