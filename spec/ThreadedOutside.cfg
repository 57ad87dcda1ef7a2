SPECIFICATION Spec
CONSTANTS T = 2 MaxLoad = 1 Vals = {1, 2} Modes = {"outside"}
INVARIANTS BestOfAll
CHECK_DEADLOCK FALSE
