SPECIFICATION Spec
CONSTANTS T = 2 MaxPool = 3 Vals = {1, 2} Modes = {"drop"}
INVARIANTS Agree
