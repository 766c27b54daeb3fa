SPECIFICATION Spec
CONSTANTS
  Symbols = {0, 1, 62, 127, 128, 251, 255}
  MaxLen = 4
INVARIANTS GroupsAreWindows RoundTrip
CHECK_DEADLOCK FALSE
