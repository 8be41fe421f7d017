CONSTANTS
  Depth = 4
  ScopeDepth = 3
  MaxInc = 1
  MaxExc = 1
INIT Init
NEXT Next
INVARIANTS Exact ImplicitAdds ImplicitSound NoIndexNoChange NamesOnlyCover
PROPERTIES Below
CHECK_DEADLOCK FALSE
