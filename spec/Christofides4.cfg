SPECIFICATION Spec
CONSTANTS MinN = 2 MaxN = 4 W = {0, 1, 2} Variants = {"walk"} AnyEdge = TRUE AnyTree = TRUE
INVARIANTS WalkCloses EulerIsEuler TourIsTour WithinBound
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
