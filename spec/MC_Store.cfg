CONSTANTS
  Patterns = {"a", "A"}
  Threads = {"t1", "t2"}
  Scanners = {1, 2}
  NSlots = 3
  GcEvery = 2
  MaxRx = 5
  Depth = 0
INIT Init
NEXT Next
INVARIANTS RightRegex RightCache Shared Bijection Bounded
CHECK_DEADLOCK FALSE
