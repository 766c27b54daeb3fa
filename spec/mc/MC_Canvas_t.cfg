SPECIFICATION Spec
CONSTANTS
  MaxCoord = 2
  MaxPoints = 3
  Dim = 2
  NK = 2
  Coords = {3000, 5000}
INVARIANTS NearestIsNearest Consistent Invariant Ordered
CHECK_DEADLOCK FALSE
