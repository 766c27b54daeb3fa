SPECIFICATION Spec
CONSTANTS
  Symbols = {0, 1, 4, 16, 63, 64, 127, 128, 170, 192, 251, 255}
  MaxLen = 5
INVARIANTS GroupsAreWindows RoundTrip
CHECK_DEADLOCK FALSE
