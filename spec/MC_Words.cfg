CONSTANTS
  L = 5
  Sigma = {107, 120, 32, 45, 49}
  MaxLa = 4
  Plus = FALSE
INIT Init
NEXT Next
INVARIANTS Emit IncludedExact ExcludedSound ExcludedComplete
PROPERTIES Causal
CHECK_DEADLOCK FALSE
