CONSTANTS
  Threads = {"t1", "t2", "t3"}
  MaxOps = 8
  Locked = TRUE
INIT Init
NEXT Next
INVARIANT GaugeShowsLive
CHECK_DEADLOCK FALSE
