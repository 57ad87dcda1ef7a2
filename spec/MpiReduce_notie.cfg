SPECIFICATION Spec
CONSTANTS MaxK = 3 MaxN = 3 Vals = {1, 2} Modes = {"notie"}
INVARIANTS Right SameWinner
