SPECIFICATION Spec
CONSTANTS MaxK = 3 Vals = {1, 2, 3} Modes = {"local"}
INVARIANTS Agree
