SPECIFICATION Spec
CONSTANTS Sizes = {3} W = {0, 1, 3} Variants = {"next"}
INVARIANT OneTriangleIsNotEnough
CHECK_DEADLOCK FALSE
