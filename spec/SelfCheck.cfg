SPECIFICATION Spec
CONSTANTS MaxN = 4
          W = {0, 1, 2}
INVARIANTS HeldKarpIsBrute CheaperIsBrute PrimIsBrute Sandwich MatchingHalf
CHECK_DEADLOCK FALSE
