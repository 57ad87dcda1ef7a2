SPECIFICATION Spec
CONSTANTS MaxLen = 1 MaxVal = 3 MaxBase = 6 MaxWidth = 3
INVARIANTS NotFromAnywhere
CHECK_DEADLOCK FALSE
