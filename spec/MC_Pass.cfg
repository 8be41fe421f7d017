CONSTANTS
  Len0 = 2
  Orders = 1
INIT Init
NEXT Next
INVARIANTS Exact RedactedExactly OrderIrrelevant
CHECK_DEADLOCK FALSE
