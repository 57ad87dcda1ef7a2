SPECIFICATION Spec
CONSTANTS T = 2 MaxPool = 4 Vals = {1, 2, 3} Modes = {"walky"}
INVARIANTS Agree Once Known BoundOk Clean
PROPERTIES NeverWorse Terminates
