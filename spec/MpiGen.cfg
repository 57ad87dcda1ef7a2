SPECIFICATION Spec
CONSTANTS MinN = 4 MaxN = 6 MaxT = 5
CHECK_DEADLOCK FALSE
