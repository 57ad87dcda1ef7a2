SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1} Kinds = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v3strict", "v5path"}
INVARIANTS Optimal
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
