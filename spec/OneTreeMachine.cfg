SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1, 2} Variants = {"scan"}
INVARIANTS TwoEdges IsBound
CHECK_DEADLOCK FALSE
