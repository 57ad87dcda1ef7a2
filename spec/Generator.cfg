SPECIFICATION Spec
CONSTANTS Sizes = {2, 3, 4} Grid = {0, 1, 3} Modes = {"walky"} Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Valid Accepted Metric Minors
