SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1, 2} Variants = {"vec"}
INVARIANTS IsTree IsEdges IsMinimal IsPromising
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
