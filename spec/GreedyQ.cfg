SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {1, 2} Variants = {"all"}
INVARIANTS Right BestOfLog Rosenkrantz
CHECK_DEADLOCK FALSE
