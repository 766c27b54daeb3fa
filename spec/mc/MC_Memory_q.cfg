SPECIFICATION MCSpec
CONSTANTS
  N = 3
  A = 2
  Bases = {2}
  MaxLearned = 2
  MaxTimes = 2
INVARIANTS ExactMemory MentalExact AsIfNeverPresented Addressed CellsAddUp AddressingInside
PROPERTIES RejectedUntouched AddressingKept
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
