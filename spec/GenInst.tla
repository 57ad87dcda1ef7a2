------------------------------ MODULE GenInst ------------------------------
(* All instances with N cities and costs from W, one JSON matrix per line. *)
EXTENDS TSP, Json, IOUtils, SequencesExt
CONSTANTS N, W
VARIABLE x
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Instances(N, W)))
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
