SPECIFICATION Spec
CONSTANTS MaxN = 4 W = {0, 1, 2} Variants = {"rewire"}
INVARIANTS IsMinimal
CHECK_DEADLOCK FALSE
