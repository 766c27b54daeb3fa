SPECIFICATION MCSpec
CONSTANTS
  N = 4
  Lim = 3
  Scores4 = {0, 2}
  Thresholds = {1, 4}
  MaxShown = 4
  Values <- Values4
INVARIANTS Sound EveryExampleOnce SemiIsSequence AnswersLearned Independent
PROPERTIES Growth
CHECK_DEADLOCK FALSE
