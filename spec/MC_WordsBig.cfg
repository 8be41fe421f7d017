CONSTANTS
  L = 6
  Sigma = {107, 120, 32, 45, 49}
  MaxLa = 5
  Plus = TRUE
INIT Init
NEXT Next
INVARIANTS Emit IncludedExact ExcludedSound ExcludedComplete
PROPERTIES Causal
CHECK_DEADLOCK FALSE
