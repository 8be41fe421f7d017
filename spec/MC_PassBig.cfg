CONSTANTS
  Len0 = 2
  Orders = 3
INIT Init
NEXT Next
INVARIANTS Exact RedactedExactly OrderIrrelevant
CHECK_DEADLOCK FALSE
