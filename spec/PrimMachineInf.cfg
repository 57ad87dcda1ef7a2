SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1, 1000000000} Variants = {"vec", "pq"}
INVARIANTS IsTree IsEdges IsMinimal
CHECK_DEADLOCK FALSE
