SPECIFICATION Spec
CONSTANTS Sizes = {2, 3} Grid = {0, 1, 3} Modes = {"walky"} Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Valid Accepted Metric Minors
