SPECIFICATION Spec
CONSTANTS
  MaxCoord = 2
  MaxPoints = 2
  Dim = 2
  NK = 2
  Coords = {500, 3000, 5000}
INVARIANTS NearestIsNearest Consistent Invariant Ordered
CHECK_DEADLOCK FALSE
