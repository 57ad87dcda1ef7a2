SPECIFICATION Spec
CONSTANTS T = 2 MaxLoad = 2 Vals = {1, 2} Modes = {"lock"}
INVARIANTS Exclusion BestOfAll
PROPERTIES NeverWorse Terminates
CHECK_DEADLOCK FALSE
