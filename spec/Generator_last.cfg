SPECIFICATION Spec
CONSTANTS Sizes = {2, 3} Grid = {0, 1} Modes = {"last"} Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Valid Accepted Metric Minors
