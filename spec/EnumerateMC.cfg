SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVal = 3 MaxBase = 6 MaxWidth = 3
INVARIANTS NextIsMeant CountIsRight ChunksTile ShiftedDoNot FromOneTwoThree
CHECK_DEADLOCK FALSE
