---------------------------- MODULE TraceMessage ---------------------------
(***************************************************************************)
(* C03, C04, C13: what the processes of an MPI world returned, against     *)
(* TSP.tla. An operation is a world of x.size processes which all make the *)
(* same calls one after the other; x.res[rank + 1][call] is what a call    *)
(* returned. Only results are judged: which messages have led to them is   *)
(* the business of the code (the machines Mpi*.tla specify the protocols   *)
(* walky uses, and generate the message orders to try).                    *)
(***************************************************************************)
EXTENDS TraceTour

Name(x, i) == x.calls[i].op \o " on " \o ToString(x.size) \o " processes"
Res(x, r, i) == x.res[r + 1][i]
Same(x, i) == \A r \in 1 .. (x.size - 1) : Res(x, r, i) = Res(x, 0, i)
\* one process suffices if all have returned the same
Judged(x, i) == IF Same(x, i) THEN { 0 } ELSE 0 .. (x.size - 1)
All(x, i) == { Res(x, r, i) : r \in 0 .. (x.size - 1) }

\* the exact solvers
ExactCall(c, n, opt, x, i, o) ==
    Need(Same(x, i), o, Name(x, i) \o ": the processes disagree: " \o ToString(All(x, i)))
    \cup UNION { LET y == Res(x, r, i)
                 IN IF y.k # "num" THEN { "op " \o ToString(o) \o ": " \o Name(x, i) \o ": process " \o ToString(r) \o " returned " \o y.k }
                    ELSE IF ~IsTour(y.p, n) THEN { "op " \o ToString(o) \o ": " \o Name(x, i) \o ": process " \o ToString(r) \o " returned no tour: " \o ToString(y.p) }
                    ELSE Need(y.v = opt, o, Name(x, i) \o ": process " \o ToString(r) \o " returned " \o ToString(y.v) \o ", the optimum is " \o ToString(opt))
                         \cup Need(CircleCost(c, y.p) = y.v, o, Name(x, i) \o ": process " \o ToString(r) \o " returned " \o ToString(y.v)
                                    \o " with a tour of cost " \o ToString(CircleCost(c, y.p)))
               : r \in Judged(x, i) }

NnCall(c, n, W, x, i, o) ==
    Need(Same(x, i), o, Name(x, i) \o ": the processes disagree: " \o ToString(All(x, i)))
    \cup UNION { LET y == Res(x, r, i)
                 IN IF y.k # "num" THEN { "op " \o ToString(o) \o ": " \o Name(x, i) \o ": process " \o ToString(r) \o " returned " \o y.k }
                    ELSE Greedy(c, n, y, o, Name(x, i))
                         \cup Need(BestIn(W, y.v, n), o, Name(x, i) \o " returned " \o ToString(y.v) \o " which is not the best of all starts")
               : r \in Judged(x, i) }

OtbCall(c, n, x, i, o) ==
    LET y == Res(x, 0, i) b == OneTreeBound(c, n)
    IN Need(y.k = "num" /\ y.v = b, o, Name(x, i) \o " returned " \o y.k \o " " \o ToString(y.v) \o ", the maximum is " \o ToString(b))

\* the minimum spanning tree is computed by every process
MstCall(c, n, x, i, o) ==
    LET w == TLCEval(MSTWeight(c, Cities(n)))
    IN UNION { LET y == Res(x, r, i)
            IN Need(y.k = "num" /\ y.v = w, o, Name(x, i) \o ": process " \o ToString(r) \o " returned " \o y.k \o " " \o ToString(y.v))
          : r \in 0 .. (x.size - 1) }

\* the costs that were sent to the root: numbers are messages of 8 bytes that are no small integers
SentCosts(x) == IF Len(x.calls) = 1 /\ Has(x, "log")
                THEN { x.log[j].v : j \in { l \in 1 .. Len(x.log) : x.log[l].d = 0 /\ x.log[l].l = 8 /\ x.log[l].k = "num" /\ x.log[l].v > 0 } }
                ELSE {}

MatchCall(c, n, x, i, o) ==
    LET V == RangeOf(x.calls[i].verts)
        given == [ j \in 1 .. (Len(x.calls[i].verts) \div 2) |-> << x.calls[i].verts[2 * j - 1], x.calls[i].verts[2 * j] >> ]
        m == Res(x, 0, i).m
    IN UNION { Need(Res(x, r, i).k = "match" /\ Res(x, r, i).m = m, o, Name(x, i) \o ": process " \o ToString(r) \o " has another matching: "
                    \o ToString(Res(x, r, i).m) \o " and " \o ToString(m)) : r \in 0 .. (x.size - 1) }
       \cup (IF ~IsPerfectMatching(m, V) THEN { "op " \o ToString(o) \o ": " \o Name(x, i) \o " is not perfect on " \o ToString(V) \o ": " \o ToString(m) }
             ELSE LET w == MatchingCost(c, m)
                  IN Need(Get(x.calls[i], "var", "") = "given" => w <= MatchingCost(c, given), o,
                          Name(x, i) \o " made " \o ToString(given) \o " worse: " \o ToString(m))
                     \cup Need(Cardinality(V) = 4 /\ x.calls[i].tries >= 1 => w = MinMatching(c, V), o, Name(x, i) \o " is not minimal: " \o ToString(m))
                     \cup Need(Cardinality(V) \in 6 .. 8 /\ x.calls[i].tries >= 300 => Stable(c, m), o, Name(x, i) \o " can still be improved: " \o ToString(m))
                     \cup Need(\A s \in SentCosts(x) : w <= s, o, Name(x, i) \o " costs " \o ToString(w) \o ", but these were found: " \o ToString(SentCosts(x))))

ChrisCall(c, n, opt, x, i, o) ==
    LET y == Res(x, 0, i)
        q == SubSeq(y.p, 1, Len(y.p) - 1)
        helpers == 1 .. (x.size - 1)
        m == IF x.size > 1 THEN Res(x, 1, i).m ELSE << >>
        w == MSTWeight(c, Cities(n))
    IN IF y.k # "num" THEN { "op " \o ToString(o) \o ": " \o Name(x, i) \o " returned " \o y.k }
       ELSE IF Len(y.p) # n + 1 \/ ~IsTour(q, n) \/ y.p[1] # y.p[Len(y.p)]
       THEN { "op " \o ToString(o) \o ": " \o Name(x, i) \o " returned no closed tour: " \o ToString(y.p) }
       ELSE Need(y.v = CircleCost(c, q), o, Name(x, i) \o " reported " \o ToString(y.v) \o " for a tour of cost " \o ToString(CircleCost(c, q)))
            \cup Need(n <= 9 => y.v >= opt, o, Name(x, i) \o " is below the optimum")
            \cup (IF x.size = 1 THEN Need(y.v <= w + (n \div 2) * MaxCost(c, n), o, Name(x, i) \o " is more than spanning tree plus any matching")
                  ELSE LET V == UNION { { m[j][1], m[j][2] } : j \in 1 .. Len(m) }
                       IN UNION { Need(Res(x, r, i).m = m, o, Name(x, i) \o ": process " \o ToString(r) \o " has another matching") : r \in helpers }
                          \cup Need(IsPerfectMatching(m, V) /\ V \subseteq Cities(n), o, Name(x, i) \o ": no matching: " \o ToString(m))
                          \cup (IF IsPerfectMatching(m, V) /\ V \subseteq Cities(n)
                                THEN Need(y.v <= w + MatchingCost(c, m), o, Name(x, i) \o " costs " \o ToString(y.v) \o ", spanning tree and matching "
                                             \o ToString(<< w, MatchingCost(c, m) >>))
                                     \cup Need(n <= 9 /\ MatchingCost(c, m) = MinMatching(c, V) => 2 * y.v <= 3 * opt, o,
                                               Name(x, i) \o ": " \o ToString(y.v) \o " is more than 1.5 times " \o ToString(opt))
                                ELSE {}))

NeedsOpt(r) == \E o \in 1 .. Len(r.ops) : \E i \in 1 .. Len(r.ops[o].calls) : r.ops[o].calls[i].op \in { "mstatic", "mdyn", "mchris" }

\* the costs of tours that are known
KnownCosts(c, n, r) ==
    { CircleCost(c, r.known) } \cup
    UNION { IF r.ops[o].k # "ok" THEN {}
            ELSE { CircleCost(c, y.p) : y \in { z \in { r.ops[o].res[1][i] : i \in 1 .. Len(r.ops[o].res[1]) } : Has(z, "p") /\ IsTour(z.p, n) } }
          : o \in 1 .. Len(r.ops) }

MReasons(r) ==
    LET c == r.c
        n == Len(c)
        opt == IF n \in 2 .. 10 /\ NeedsOpt(r) THEN TLCEval(Opt(c, n))
               ELSE IF Has(r, "known") THEN TLCEval(OptOf(c, n, KnownCosts(c, n, r))) ELSE -1
        W == TLCEval(IF \E o \in 1 .. Len(r.ops) : \E i \in 1 .. Len(r.ops[o].calls) : r.ops[o].calls[i].op = "mnn" THEN Worst(c, n) ELSE << >>)
        Call(x, i, o) == CASE x.calls[i].op \in { "mstatic", "mdyn" } -> ExactCall(c, n, opt, x, i, o)
                           [] x.calls[i].op = "mnn" -> NnCall(c, n, W, x, i, o)
                           [] x.calls[i].op = "motb" -> OtbCall(c, n, x, i, o)
                           [] x.calls[i].op = "mmst" -> MstCall(c, n, x, i, o)
                           [] x.calls[i].op = "mmatch" -> MatchCall(c, n, x, i, o)
                           [] x.calls[i].op = "mchris" -> ChrisCall(c, n, opt, x, i, o)
        Op(o) == LET x == r.ops[o] IN
            IF x.k # "ok" THEN { "op " \o ToString(o) \o ": a world of " \o ToString(x.size) \o " processes ended with " \o x.k \o " " \o x.msg }
            ELSE UNION { Call(x, i, o) : i \in 1 .. Len(x.calls) }
    IN UNION { Op(o) : o \in 1 .. Len(r.ops) }

MNext == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, MReasons(Trace[k]))
MSpec == Init /\ [][MNext]_<<k, done>>
=============================================================================
