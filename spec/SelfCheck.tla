----------------------------- MODULE SelfCheck -----------------------------
(***************************************************************************)
(* Validates the oracles of TSP.tla against brute force, and the classical *)
(* relations between them, on every instance with at most MaxN cities and  *)
(* costs from W.                                                           *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS MaxN, W

VARIABLES n, c, done
vars == <<n, c, done>>

Init == /\ n \in 2 .. MaxN
        /\ c \in Instances(n, W)
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, c>>
Spec == Init /\ [][Next]_vars

HeldKarpIsBrute == done => Opt(c, n) = OptBrute(c, n)
CheaperIsBrute == done => LET o == OptBrute(c, n) IN
    /\ ~CheaperTour(c, n, o) /\ ~CheaperTour(c, n, o - 1) /\ CheaperTour(c, n, o + 1) /\ CheaperTour(c, n, o + 5)
    /\ OptOf(c, n, { o + 1, o }) = o /\ OptOf(c, n, { o + 1 }) = o
PrimIsBrute == done => /\ MSTWeight(c, Cities(n)) = MSTBrute(c, Cities(n))
                       /\ \A s \in Cities(n) : n > 2 =>
                            MSTWeight(c, Cities(n) \ {s}) = MSTBrute(c, Cities(n) \ {s})
Sandwich == done => /\ MSTWeight(c, Cities(n)) <= OneTreeBound(c, n)
                    /\ OneTreeBound(c, n) <= Opt(c, n)
\* Christofides, in one line: for metric instances an optimal tour of the odd
\* vertices bounds the matching by half of the optimum
MatchingHalf == (done /\ IsMetric(c, n)) =>
    \A V \in SUBSET Cities(n) : (V # {} /\ Cardinality(V) % 2 = 0) =>
        2 * MinMatching(c, V) <= Opt(c, n)
=============================================================================
