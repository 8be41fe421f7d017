CONSTANTS
  N = 4
  R = 3
INIT Init
NEXT Next
INVARIANTS SameOutcome NoOverlap DroppedOnlyForBetter AllReported Outside ShiftIsMove Ascending Untouched ChangingWins
CHECK_DEADLOCK FALSE
