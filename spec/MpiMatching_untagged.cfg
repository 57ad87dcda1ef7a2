SPECIFICATION Spec
CONSTANTS MaxK = 3 Vals = {1, 2, 3} Modes = {"untagged"}
INVARIANTS Agree
