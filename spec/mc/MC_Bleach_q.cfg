SPECIFICATION Spec
CONSTANTS
  Labels <- LabelSet
  Rams = 2
  MaxVote = 2
  MaxConf = 3
INVARIANTS Right Degrees Bounded
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
