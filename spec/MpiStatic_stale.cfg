SPECIFICATION Spec
CONSTANTS T = 2 MaxLoad = 2 Vals = {1, 2} Modes = {"stale"}
INVARIANTS Agree Known BoundOk Clean
