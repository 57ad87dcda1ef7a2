SPECIFICATION Spec
CONSTANTS Sizes = {2, 3} MaxDeg = 2 W = {1, 2} Emit = FALSE
INVARIANTS ExactlyTheValid MatrixIsRight
CHECK_DEADLOCK FALSE
