SPECIFICATION Spec
CONSTANTS MinN = 5 MaxN = 5 W = {1, 2} Variants = {"walk"} AnyEdge = TRUE AnyTree = TRUE
INVARIANTS WalkCloses EulerIsEuler TourIsTour WithinBound
CHECK_DEADLOCK FALSE
