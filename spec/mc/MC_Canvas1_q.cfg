SPECIFICATION Spec
CONSTANTS
  MaxCoord = 4
  MaxPoints = 3
  Dim = 1
  NK = 3
  Coords = {500, 3000, 5000}
INVARIANTS NearestIsNearest Consistent Invariant Ordered
CHECK_DEADLOCK FALSE
