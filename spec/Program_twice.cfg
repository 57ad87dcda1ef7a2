SPECIFICATION Spec
CONSTANTS MaxK = 3 Modes = {"twice"} Emit = FALSE
INVARIANTS Answers Refuses
