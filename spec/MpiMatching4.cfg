SPECIFICATION Spec
CONSTANTS MaxK = 4 Vals = {1, 2, 3} Modes = {"walky"}
INVARIANTS Agree NotWorse Clean
