SPECIFICATION Spec
CONSTANTS T = 2 MaxLoad = 2 Vals = {1, 2, 3} Modes = {"walky"}
INVARIANTS Agree Known BoundOk Clean
PROPERTIES NeverWorse Terminates
