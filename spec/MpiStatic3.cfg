SPECIFICATION Spec
CONSTANTS T = 3 MaxLoad = 1 Vals = {1, 2} Modes = {"walky"}
INVARIANTS Agree Known BoundOk Clean
PROPERTIES NeverWorse Terminates
