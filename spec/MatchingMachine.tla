--------------------------- MODULE MatchingMachine -------------------------
(***************************************************************************)
(* The randomized matching: any initial pairing of the vertices, then any  *)
(* two pairs (in any order and orientation) are rearranged if one of the   *)
(* two alternatives is cheaper. One try looks at disjoint pairs of pairs,  *)
(* hence tries are sequences of such steps in any order (threads).         *)
(*   "three"   keeps the cheapest of the three pairings, as walky does     *)
(*   "dup"     writes v2 twice and loses v3 when the second alternative    *)
(*             wins over the first (a repaired defect; has to fail)        *)
(*   "swap"    takes the first alternative whenever it differs (must fail) *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS N, Sizes, W, Variants

VARIABLES variant, c, V, m, tries
vars == << variant, c, V, m, tries >>

\* all ways to write V as a list of ordered pairs, one representative per pairing and orientation
RECURSIVE Pairings(_)
Pairings(S) ==
    IF S = {} THEN { << >> }
    ELSE LET v == Min(S)
         IN UNION { UNION { { << << v, u >> >> \o r, << << u, v >> >> \o r } : r \in Pairings(S \ {u, v}) } : u \in S \ {v} }

Init ==
    /\ variant \in Variants
    /\ c \in Instances(N, W)
    /\ V \in { S \in SUBSET Cities(N) : Cardinality(S) \in Sizes }
    /\ m \in Pairings(V)
    /\ tries = 0

Rearrange(a, b) ==
    LET v0 == a[1] v1 == a[2] v2 == b[1] v3 == b[2]
        c0 == C(c, v0, v1) + C(c, v2, v3)
        c1 == C(c, v0, v2) + C(c, v1, v3)
        c2 == C(c, v0, v3) + C(c, v1, v2)
    IN IF variant = "swap" THEN IF c1 # c0 THEN << <<v0, v2>>, <<v1, v3>> >> ELSE << a, b >>
       ELSE IF c1 < c0
       THEN IF c2 < c1
            THEN IF variant = "dup" THEN << <<v0, v2>>, <<v1, v2>> >> ELSE << <<v0, v3>>, <<v1, v2>> >>
            ELSE << <<v0, v2>>, <<v1, v3>> >>
       ELSE IF c2 < c0 THEN << <<v0, v3>>, <<v1, v2>> >> ELSE << a, b >>

Step ==
    \E i, j \in 1 .. Len(m) :
        /\ i # j /\ tries < 3
        /\ LET r == Rearrange(m[i], m[j]) IN m' = [ m EXCEPT ![i] = r[1], ![j] = r[2] ]
        /\ tries' = tries + 1
        /\ UNCHANGED << variant, c, V >>
Next == Step
Spec == Init /\ [][Next]_vars

Perfect == IsPerfectMatching(m, V)
NeverWorse == [][MatchingCost(c, m') <= MatchingCost(c, m)]_vars
MinimalForFour == (Cardinality(V) = 4 /\ tries >= 1) => MatchingCost(c, m) = MinMatching(c, V)
AtLeastMin == Perfect => MatchingCost(c, m) >= MinMatching(c, V)
=============================================================================
