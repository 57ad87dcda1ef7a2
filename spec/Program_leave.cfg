SPECIFICATION Spec
CONSTANTS MaxK = 3 Modes = {"leave"} Emit = FALSE
INVARIANTS Answers Refuses
