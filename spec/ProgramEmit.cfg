INIT Init
NEXT Stop
CONSTANTS MaxK = 1 Modes = {"walky"} Emit = TRUE
CHECK_DEADLOCK FALSE
