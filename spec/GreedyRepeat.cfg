SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {1, 2} Variants = {"repeat"}
INVARIANTS BestOfLog
CHECK_DEADLOCK FALSE
