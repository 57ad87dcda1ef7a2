SPECIFICATION Spec
CONSTANTS Sizes = {2, 3, 4} W = {0, 1, 3} Variants = {"all"}
INVARIANT Right
PROPERTY Terminates
CHECK_DEADLOCK FALSE
