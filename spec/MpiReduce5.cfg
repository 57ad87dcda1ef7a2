SPECIFICATION Spec
CONSTANTS MaxK = 5 MaxN = 5 Vals = {1, 2} Modes = {"walky", "onetree"}
INVARIANTS Covered Disjoint Right SameWinner
