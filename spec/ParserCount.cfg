SPECIFICATION Spec
CONSTANTS Sizes = {2} MaxDeg = 2 W = {1, 2} Emit = FALSE
INVARIANTS CountIsNotEnough
CHECK_DEADLOCK FALSE
