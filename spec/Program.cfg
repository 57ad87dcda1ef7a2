SPECIFICATION Spec
CONSTANTS MaxK = 3 Modes = {"walky"} Emit = FALSE
INVARIANTS Answers Refuses Honest
PROPERTIES Terminates
