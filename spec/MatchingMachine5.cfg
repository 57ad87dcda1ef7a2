SPECIFICATION Spec
CONSTANTS N = 5 Sizes = {2, 4} W = {1, 2} Variants = {"three"}
INVARIANTS Perfect MinimalForFour AtLeastMin
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
