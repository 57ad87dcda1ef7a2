SPECIFICATION Spec
CONSTANTS MaxK = 3 Modes = {"careless"} Emit = FALSE
INVARIANTS Answers Refuses Honest
