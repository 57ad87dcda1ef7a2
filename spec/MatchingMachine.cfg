SPECIFICATION Spec
CONSTANTS N = 4 Sizes = {0, 2, 4} W = {0, 1, 2} Variants = {"three"}
INVARIANTS Perfect MinimalForFour AtLeastMin
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
