SPECIFICATION MCSpec
CONSTANTS
  N = 3
  Lim = 2
  Scores4 = {0, 2}
  Thresholds = {1, 3}
  MaxShown = 3
  Values <- Values3
INVARIANTS Sound EveryExampleOnce SemiIsSequence AnswersLearned Independent
PROPERTIES Growth
CHECK_DEADLOCK FALSE
