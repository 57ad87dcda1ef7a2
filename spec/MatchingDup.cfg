SPECIFICATION Spec
CONSTANTS N = 4 Sizes = {0, 2, 4} W = {0, 1, 2} Variants = {"dup"}
INVARIANTS Perfect
CHECK_DEADLOCK FALSE
