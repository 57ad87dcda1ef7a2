SPECIFICATION Spec
CONSTANTS Sizes = {2, 3, 4} MaxOps = 3 W = {0, 5} Emit = FALSE
INVARIANTS DegreeIsEnds WeightIsTwice BothEnds Handshake
CHECK_DEADLOCK FALSE
