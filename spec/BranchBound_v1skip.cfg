SPECIFICATION Spec
CONSTANTS MaxN = 2 W = {0, 1, 2, 3} Kinds = {"v1skip"}
INVARIANTS Optimal
CHECK_DEADLOCK FALSE
