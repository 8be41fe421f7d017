CONSTANTS
  Depth = 3
  ScopeDepth = 2
  MaxInc = 2
  MaxExc = 1
INIT Init
NEXT Next
INVARIANTS Exact ImplicitAdds ImplicitSound NoIndexNoChange NamesOnlyCover
PROPERTIES Below
CHECK_DEADLOCK FALSE
