SPECIFICATION Spec
CONSTANTS MaxK = 3 Modes = {"early"} Emit = FALSE
INVARIANTS Answers Refuses
