SPECIFICATION TraceSpec
CONSTRAINT Accepted
INVARIANT SoundHere
CHECK_DEADLOCK FALSE
ALIAS Shown
