SPECIFICATION Spec
CONSTANTS T = 2 MaxLoad = 2 Vals = {1, 2} Modes = {"overwrite"}
INVARIANTS Agree Known BoundOk Clean
