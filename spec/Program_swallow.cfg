SPECIFICATION Spec
CONSTANTS MaxK = 3 Modes = {"swallow"} Emit = FALSE
INVARIANTS Answers Refuses
