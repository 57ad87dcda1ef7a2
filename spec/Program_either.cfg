SPECIFICATION Spec
CONSTANTS MaxK = 3 Modes = {"either"} Emit = FALSE
INVARIANTS Answers Refuses
