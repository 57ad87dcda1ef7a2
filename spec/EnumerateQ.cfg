SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVal = 2 MaxBase = 6 MaxWidth = 3
INVARIANTS NextIsMeant CountIsRight ChunksTile ShiftedDoNot FromOneTwoThree
CHECK_DEADLOCK FALSE
