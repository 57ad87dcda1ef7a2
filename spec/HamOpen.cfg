SPECIFICATION Spec
CONSTANTS Sizes = {2, 3, 4} MaxLen = 6 Variants = {"open"}
INVARIANT Exactly
CHECK_DEADLOCK FALSE
