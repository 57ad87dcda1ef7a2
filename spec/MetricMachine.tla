---------------------------- MODULE MetricMachine --------------------------
(***************************************************************************)
(* The metric test walks over all i <= j and all k and stops at the first  *)
(* detour that is shorter. For symmetric costs that is as good as all      *)
(* ordered triples.                                                        *)
(*   "all"     every k                                                     *)
(*   "next"    only looks at k > j (has to fail)                           *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS Sizes, W, Variants

VARIABLES variant, c, i, j, k, res
vars == << variant, c, i, j, k, res >>
n == Len(c)

Init == /\ variant \in Variants
        /\ \E m \in Sizes : c \in Instances(m, W)
        /\ i = 0 /\ j = 0 /\ k = 0 /\ res = "running"

Test == /\ res = "running" /\ i < n /\ j < n /\ k < n
        /\ IF (variant # "next" \/ k > j) /\ C(c, i, j) > C(c, i, k) + C(c, k, j)
           THEN res' = "no" /\ UNCHANGED << i, j, k >>
           ELSE res' = res /\ k' = k + 1 /\ UNCHANGED << i, j >>
        /\ UNCHANGED << variant, c >>
NextPair == /\ res = "running" /\ k = n /\ i < n
            /\ IF j + 1 < n THEN j' = j + 1 /\ i' = i ELSE i' = i + 1 /\ j' = i + 1
            /\ k' = 0 /\ UNCHANGED << variant, c, res >>
End == /\ res = "running" /\ i = n /\ res' = "yes" /\ UNCHANGED << variant, c, i, j, k >>
Next == Test \/ NextPair \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == res # "running" => ((res = "yes") <=> IsMetric(c, n))
OneTriangleIsNotEnough == res = "yes" => IsMetric(c, n)
Terminates == <>(res # "running")
=============================================================================
