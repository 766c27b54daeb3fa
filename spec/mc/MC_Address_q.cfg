SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxBase = 4
  MaxLen = 4
INVARIANTS BuiltIsValid AsStated Tight
CHECK_DEADLOCK FALSE
