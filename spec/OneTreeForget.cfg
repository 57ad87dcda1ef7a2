SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1, 2} Variants = {"forget"}
INVARIANTS TwoEdges
CHECK_DEADLOCK FALSE
