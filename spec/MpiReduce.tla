----------------------------- MODULE MpiReduce -----------------------------
(***************************************************************************)
(* Nearest neighbour and the 1-tree bound over K processes: the start      *)
(* cities are divided, every process takes the best of its share, and the  *)
(* shares are combined in any order and association that MPI may choose.   *)
(*                                                                         *)
(* Nearest neighbour: chunks of n div K cities, the last process takes the *)
(* rest; the reduction takes the smaller cost and, if equal, the smaller   *)
(* rank; the winner then broadcasts its tour. 1-tree: process r takes the  *)
(* cities r, r + K, ...; the reduction is the maximum, at the root.        *)
(*                                                                         *)
(* Every process reduces on its own (an all-reduce need not use the same   *)
(* order everywhere), so without the rank in the comparison processes may  *)
(* disagree on the winner ("notie", has to fail). Further designs that     *)
(* have to fail: "norest" (the rest of the division is not done),          *)
(* "overlap"/"zero" (a process without cities reports 0 instead of         *)
(* nothing), "minmax" (the 1-tree bound takes the minimum).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS MaxK, MaxN, Vals, Modes

Inf == 1000000000

VARIABLES mode, K, n,
    val,     \* val[s]: cost of the greedy tour from city s (or weight of the 1-tree at s)
    piles,   \* piles[r]: what process r still has to combine for its result
    result   \* result[r]
vars == << mode, K, n, val, piles, result >>

Ranks == 0 .. (K - 1)
Cities == 0 .. (n - 1)
None == [ c |-> -1, r |-> -1 ]

NnShare(k, m, r) ==
    LET size == m \div k
        lo == r * size
        hi == IF r = k - 1 /\ m % k # 0 /\ mode # "norest" THEN m ELSE lo + size
    IN lo .. (hi - 1)

OtShare(k, m, r) == { s \in 0 .. (m - 1) : s % k = r }

Share(r) == IF mode \in { "onetree", "minmax" } THEN OtShare(K, n, r) ELSE NnShare(K, n, r)

Local(r) ==
    LET S == { val[s] : s \in Share(r) }
    IN IF mode = "onetree" THEN [ c |-> IF S = {} THEN 0 ELSE Max(S), r |-> r ]
       ELSE IF mode = "minmax" THEN [ c |-> IF S = {} THEN 0 ELSE Min(S), r |-> r ]
       ELSE [ c |-> IF S = {} THEN (IF mode = "zero" THEN 0 ELSE Inf) ELSE Min(S), r |-> r ]

\* the reduction of x into y
Op(x, y) ==
    CASE mode = "onetree" -> IF x.c > y.c THEN x ELSE y
      [] mode = "minmax" -> IF x.c < y.c THEN x ELSE y
      [] mode = "notie" -> IF x.c < y.c THEN x ELSE y
      [] OTHER -> IF x.c < y.c \/ (x.c = y.c /\ x.r < y.r) THEN x ELSE y

Init ==
    /\ mode \in Modes
    /\ K \in 1 .. MaxK
    /\ n \in 2 .. MaxN
    /\ val \in [ 0 .. (n - 1) -> Vals ]
    \* the processes that reduce: all of them (two are enough to see a disagreement)
    /\ piles = [ r \in 0 .. (IF K = 1 THEN 0 ELSE 1) |-> { Local(s) : s \in Ranks } ]
    /\ result = [ r \in DOMAIN piles |-> None ]

Combine(r) ==
    /\ Cardinality(piles[r]) > 1
    /\ \E x \in piles[r] : \E y \in piles[r] \ {x} :
        piles' = [ piles EXCEPT ![r] = (@ \ {x, y}) \cup { Op(x, y) } ]
    /\ UNCHANGED << mode, K, n, val, result >>

Return(r) ==
    /\ Cardinality(piles[r]) = 1 /\ result[r] = None
    /\ result' = [ result EXCEPT ![r] = CHOOSE x \in piles[r] : TRUE ]
    /\ UNCHANGED << mode, K, n, val, piles >>

AllDone == \A r \in DOMAIN result : result[r] # None
Next == (\E r \in DOMAIN piles : Combine(r) \/ Return(r)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every city is somebody's
Covered == UNION { Share(r) : r \in Ranks } = Cities
Disjoint == \A r, s \in Ranks : r # s => Share(r) \cap Share(s) = {}
Right ==
    AllDone =>
        IF mode \in { "onetree", "minmax" } THEN result[0].c = Max({ val[s] : s \in Cities })
        ELSE \A r \in DOMAIN result :
                /\ result[r].c = Min({ val[s] : s \in Cities })
                \* the winner has cities and holds a tour of this cost
                /\ \E s \in Share(result[r].r) : val[s] = result[r].c
\* all wait for a tour from the same process
SameWinner == AllDone /\ mode # "onetree" => \A r, s \in DOMAIN result : result[r] = result[s]
Terminates == <>AllDone
=============================================================================
