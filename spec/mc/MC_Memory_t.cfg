SPECIFICATION MCSpec
CONSTANTS
  N = 3
  A = 2
  Bases = {2}
  MaxLearned = 3
  MaxTimes = 3
INVARIANTS ExactMemory MentalExact AsIfNeverPresented Addressed CellsAddUp AddressingInside
PROPERTIES RejectedUntouched AddressingKept
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
