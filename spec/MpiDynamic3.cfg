SPECIFICATION Spec
CONSTANTS T = 3 MaxPool = 2 Vals = {1, 2} Modes = {"walky"}
INVARIANTS Agree Once Known BoundOk Clean
PROPERTIES NeverWorse Terminates
