SPECIFICATION Spec
CONSTANTS MinN = 2 MaxN = 4 W = {0, 1, 2} Variants = {"simple"} AnyEdge = FALSE AnyTree = TRUE
INVARIANTS WalkCloses
CHECK_DEADLOCK FALSE
