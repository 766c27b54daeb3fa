SPECIFICATION TraceSpec
CONSTRAINT Progress
INVARIANT SoundHere
CHECK_DEADLOCK FALSE
ALIAS Shown
