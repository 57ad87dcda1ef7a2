SPECIFICATION Spec
CONSTANTS MinN = 2 MaxN = 4 W = {1, 2} Variants = {"append"} AnyEdge = FALSE AnyTree = FALSE
INVARIANTS EulerIsEuler
CHECK_DEADLOCK FALSE
