CONSTANTS
  Docs = {"A", "B"}
  MaxObj = 4
  MaxLen = 2
  Depth = 9
  Scans = FALSE
INIT Init
NEXT Next
INVARIANTS NoDangling HandlesLive Exact NoLeak ByValue Vec
CHECK_DEADLOCK FALSE
