SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  MaxV = 4
  K = 12
INVARIANTS Allowed Possible Expected Frequencies
CHECK_DEADLOCK FALSE
