CONSTANTS
  Patterns = {"a", "A", "b"}
  Threads = {"t1", "t2"}
  Scanners = {1, 2}
  NSlots = 4
  GcEvery = 2
  MaxRx = 4
  Depth = 0
INIT Init
NEXT Next
INVARIANTS RightRegex RightCache Shared Bijection Bounded
CHECK_DEADLOCK FALSE
