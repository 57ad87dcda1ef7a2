SPECIFICATION Spec
CONSTANTS MinN = 4 MaxN = 6
CHECK_DEADLOCK FALSE
