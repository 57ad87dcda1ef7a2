SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1, 3} Kinds = {"v4full"}
INVARIANTS PruneIsAdmissible
CHECK_DEADLOCK FALSE
