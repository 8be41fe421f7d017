CONSTANTS
  Aws = FALSE
INIT Init
NEXT Next
INVARIANTS Strongest NotValidated BothValid OnlyValid
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
