CONSTANTS
  Patterns = {"a", "A", "b"}
  Threads = {"t1"}
  Scanners = {1, 2, 3}
  NSlots = 6
  GcEvery = 1000
  MaxRx = 9
  Depth = 6
INIT Init
NEXT Next
INVARIANTS RightRegex RightCache Shared Bijection Vec
CHECK_DEADLOCK FALSE
