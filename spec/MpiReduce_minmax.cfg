SPECIFICATION Spec
CONSTANTS MaxK = 3 MaxN = 3 Vals = {1, 2} Modes = {"minmax"}
INVARIANTS Right SameWinner
