SPECIFICATION Spec
CONSTANTS Sizes = {2} MaxDeg = 2 W = {1, 2} Emit = TRUE
CHECK_DEADLOCK FALSE
