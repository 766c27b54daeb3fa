SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxBase = 6
  MaxLen = 5
INVARIANTS BuiltIsValid AsStated Tight
CHECK_DEADLOCK FALSE
