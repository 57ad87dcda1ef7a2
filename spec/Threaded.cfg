SPECIFICATION Spec
CONSTANTS T = 3 MaxLoad = 2 Vals = {1, 2, 3} Modes = {"lock"}
INVARIANTS Exclusion BestOfAll
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
