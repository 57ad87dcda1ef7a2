SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1, 3} Kinds = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v3strict", "v5path"}
INVARIANTS BestIsATour CostIsPathCost Optimal PruneIsAdmissible
PROPERTIES BestNeverRises
CHECK_DEADLOCK FALSE
