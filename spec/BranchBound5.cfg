SPECIFICATION Spec
CONSTANTS MaxN = 5 W = {1, 2} Kinds = {"v1", "v3", "v4", "v5", "v6"}
INVARIANTS BestIsATour CostIsPathCost Optimal PruneIsAdmissible
PROPERTIES BestNeverRises
CHECK_DEADLOCK FALSE
