CONSTANTS
  Docs = {"A", "B"}
  MaxObj = 5
  MaxLen = 2
  Depth = 11
  Scans = FALSE
INIT Init
NEXT Next
INVARIANTS NoDangling HandlesLive Exact NoLeak ByValue
CHECK_DEADLOCK FALSE
