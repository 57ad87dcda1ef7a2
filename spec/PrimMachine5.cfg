SPECIFICATION Spec
CONSTANTS MaxN = 5 W = {1, 2} Variants = {"vec", "pq"}
INVARIANTS IsTree IsEdges IsMinimal 
CHECK_DEADLOCK FALSE
