CONSTANTS
  Docs = {"A", "broken", "bad"}
  MaxObj = 4
  MaxLen = 2
  Depth = 8
  Scans = FALSE
INIT Init
NEXT Next
INVARIANTS NoDangling HandlesLive Exact NoLeak ByValue Vec
CHECK_DEADLOCK FALSE
