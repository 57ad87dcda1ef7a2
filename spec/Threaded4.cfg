SPECIFICATION Spec
CONSTANTS T = 4 MaxLoad = 2 Vals = {1, 2} Modes = {"lock"}
INVARIANTS Exclusion BestOfAll
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
