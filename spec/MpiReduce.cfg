SPECIFICATION Spec
CONSTANTS MaxK = 4 MaxN = 4 Vals = {1, 2, 3} Modes = {"walky", "onetree"}
INVARIANTS Covered Disjoint Right SameWinner
PROPERTIES Terminates
