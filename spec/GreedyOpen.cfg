SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {1, 2} Variants = {"open"}
INVARIANTS Right
CHECK_DEADLOCK FALSE
