SPECIFICATION Spec
CONSTANTS Sizes = {3} Grid = {0, 1} Modes = {"minor"} Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Valid Accepted Metric Minors
