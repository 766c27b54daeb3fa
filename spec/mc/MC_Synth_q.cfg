SPECIFICATION Spec
CONSTANTS
  MaxSize = 3
  MaxV = 4
  K = 12
INVARIANTS Allowed Possible Expected Frequencies
CHECK_DEADLOCK FALSE
