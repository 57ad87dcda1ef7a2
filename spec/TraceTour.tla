----------------------------- MODULE TraceTour -----------------------------
(***************************************************************************)
(* C07, C08, C09: what nearest neighbour, the randomized matching and      *)
(* Christofides returned, against TSP.tla.                                 *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES k, done

(*--------------------------- nearest neighbour --------------------------*)

\* the largest cost a greedy tour from s can have, over all ways to break ties
RECURSIVE WorstFrom(_, _, _, _, _)
WorstFrom(c, s, last, out, w) ==
    IF out = {} THEN w + C(c, last, s)
    ELSE LET row == c[last + 1]
             m == TLCEval(Min({ row[u + 1] : u \in out }))
             near == TLCEval({ u \in out : row[u + 1] = m })
         IN IF Cardinality(near) = 1
            THEN LET v == CHOOSE u \in near : TRUE IN WorstFrom(c, s, v, out \ near, TLCEval(w + m))
            ELSE Max({ WorstFrom(c, s, v, out \ {v}, TLCEval(w + m)) : v \in near })

\* v is the cost of the best greedy tour over `num` distinct starts, if ties may be broken in any
\* way: so many starts must be able to end with a tour that is not cheaper
BestIn(W, v, num) == Cardinality({ s \in DOMAIN W : W[s] >= v }) >= num
Worst(c, n) == TLCEval([ s \in Cities(n) |-> WorstFrom(c, s, s, Cities(n) \ {s}, 0) ])
BestOf(c, n, v, num) == BestIn(Worst(c, n), v, num)

Greedy(c, n, x, o, name) ==
    IF ~IsTour(x.p, n) THEN { "op " \o ToString(o) \o ": " \o name \o " returned no tour: " \o ToString(x.p) }
    ELSE Need(IsGreedy(c, n, x.p), o, name \o " is not greedy: " \o ToString(x.p))
         \cup Need(x.v = CircleCost(c, x.p), o, name \o " reported " \o ToString(x.v) \o " for a tour of cost " \o ToString(CircleCost(c, x.p)))

NnOp(c, n, W, x, o) ==
    LET name == x.op \o " " \o Get(x, "mode", "") \o (IF Has(x, "num") THEN ToString(x.num) ELSE IF Has(x, "s") THEN ToString(x.s) ELSE "")
        num == IF x.op = "nn" THEN n ELSE IF x.op = "nnk" THEN x.num ELSE 1
    IN Greedy(c, n, x, o, name)
       \cup (IF x.op = "nn1" THEN Need(x.p # << >> /\ x.p[1] = x.s, o, name \o " starts elsewhere: " \o ToString(x.p))
             ELSE Need(BestIn(W, x.v, num), o, name \o " returned " \o ToString(x.v) \o " which is not the best of so many starts"))

(*-------------------------------- matching ------------------------------*)

\* exchanging two pairs cannot make it cheaper
Stable(c, m) ==
    \A i, j \in 1 .. Len(m) : i < j =>
        LET a == m[i] b == m[j] w == C(c, a[1], a[2]) + C(c, b[1], b[2])
        IN /\ w <= C(c, a[1], b[1]) + C(c, a[2], b[2])
           /\ w <= C(c, a[1], b[2]) + C(c, a[2], b[1])

MatchOp(c, n, x, o) ==
    LET V == RangeOf(x.verts)
        name == "matching (" \o x.mode \o ", " \o ToString(x.tries) \o " tries)"
    IN IF ~IsPerfectMatching(x.m, V) THEN { "op " \o ToString(o) \o ": " \o name \o " is not perfect on " \o
                (IF Len(x.m) < 20 THEN ToString(V) \o ": " \o ToString(x.m) ELSE "many vertices") }
       ELSE IF n = 0 THEN {}
       ELSE (IF Cardinality(V) = 4 /\ x.tries >= 1
             THEN Need(MatchingCost(c, x.m) = MinMatching(c, V), o, name \o " is not minimal: " \o ToString(x.m)) ELSE {})
            \cup (IF x.tries >= 300 /\ Cardinality(V) <= 8
                  THEN Need(Stable(c, x.m), o, name \o " can still be improved: " \o ToString(x.m)) ELSE {})

(*------------------------------- Christofides ---------------------------*)

MaxCost(c, n) == Max({ C(c, i, j) : i, j \in Cities(n) })

ChrisOp(c, n, opt, x, o) ==
    LET name == "christofides " \o Get(x, "mode", "seq") \o " " \o Get(x, "with", "")
        q == SubSeq(x.p, 1, Len(x.p) - 1)
    IN IF Len(x.p) # n + 1 \/ ~IsTour(q, n) \/ x.p[1] # x.p[Len(x.p)]
       THEN { "op " \o ToString(o) \o ": " \o name \o " returned no closed tour: " \o ToString(x.p) }
       ELSE LET w == MSTWeight(c, Cities(n))
                    seen == Len(x.odd) > 0
            IN Need(x.v = CircleCost(c, q), o, name \o " reported " \o ToString(x.v) \o " for a tour of cost " \o ToString(CircleCost(c, q)))
               \cup Need(x.v >= opt, o, name \o " is below the optimum")
               \cup (IF seen
                     THEN Need(IsPerfectMatching(x.m, RangeOf(x.odd)), o, name \o ": matching " \o ToString(x.m) \o " on " \o ToString(x.odd))
                          \cup Need(x.v <= w + MatchingCost(c, x.m), o, name \o ": " \o ToString(x.v) \o " is more than spanning tree plus matching " \o
                                    ToString(<< w, MatchingCost(c, x.m) >>))
                     ELSE Need(x.v <= w + (n \div 2) * MaxCost(c, n), o, name \o ": " \o ToString(x.v) \o " is more than spanning tree plus any matching"))
               \cup (IF n <= 9 /\ (n <= 5 \/ (seen /\ MatchingCost(c, x.m) = MinMatching(c, RangeOf(x.odd))))
                        /\ (seen => (MatchingCost(c, x.m) = MinMatching(c, RangeOf(x.odd))))
                     THEN Need(2 * x.v <= 3 * opt, o, name \o ": " \o ToString(x.v) \o " is more than 1.5 times " \o ToString(opt)) ELSE {})

Reasons(r) ==
    LET c == Get(r, "c", << >>)
        n == Len(c)
        \* the optimum is only needed for Christofides
        opt == IF n \in 2 .. 9 /\ (\E o \in 1 .. Len(r.ops) : r.ops[o].op = "chris") THEN TLCEval(Opt(c, n)) ELSE -1
        W == TLCEval(IF \E o \in 1 .. Len(r.ops) : r.ops[o].op \in { "nn", "nnk" } THEN Worst(c, n) ELSE << >>)
        Op(o) == LET x == r.ops[o] IN
            IF x.k # "num" THEN { "op " \o ToString(o) \o ": " \o x.op \o " ended with " \o x.k }
            ELSE CASE x.op \in { "nn1", "nn", "nnk" } -> NnOp(c, n, W, x, o)
                   [] x.op = "match" -> MatchOp(c, n, x, o)
                   [] x.op = "chris" -> ChrisOp(c, n, opt, x, o)
    IN UNION { Op(o) : o \in 1 .. Len(r.ops) }

Init == k \in 1 .. Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, Reasons(Trace[k]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
