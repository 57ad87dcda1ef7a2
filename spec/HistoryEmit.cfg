SPECIFICATION Spec
CONSTANTS Sizes = {2, 3, 4} MaxOps = 2 W = {0, 5} Emit = TRUE
CHECK_DEADLOCK FALSE
