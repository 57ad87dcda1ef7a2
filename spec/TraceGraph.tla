----------------------------- MODULE TraceGraph ----------------------------
(***************************************************************************)
(* C12, C15, C16: cost evaluation, matrix constructions, the metric test,  *)
(* the Hamiltonian cycle test and histories of graph operations.           *)
(***************************************************************************)
EXTENDS TraceBase, GraphOps

VARIABLES k, done

EvalOp(c, x, o) ==
    Need(\A i \in 1 .. Len(x.r) : x.r[i].k = "num" /\ x.r[i].v = PathCost(c, x.p), o,
         "cost of path " \o ToString(x.p) \o " is " \o ToString(PathCost(c, x.p)) \o ", got " \o ToString(x.r))
    \cup Need(\A i \in 1 .. Len(x.q) : x.q[i].k = "num" /\ x.q[i].v = CircleCost(c, x.p), o,
         "cost of circle " \o ToString(x.p) \o " is " \o ToString(CircleCost(c, x.p)) \o ", got " \o ToString(x.q))

MatricesOp(c, n, x, o) ==
    UNION { LET y == x.ms[i] IN
            Need(y.dim = n /\ y.m = c, o, "matrix " \o y.how \o " is " \o ToString(y.m))
            \cup Need(y.metric = IsMetric(c, n), o, "metric test of " \o y.how \o " says " \o ToString(y.metric))
          : i \in 1 .. Len(x.ms) }

\* a is 1000 times the distance of two points, rounded
Dist(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Rounded(a, d2) == /\ (d2 = 0) => (a = 0)
                  /\ d2 > 0 => ((2 * a - 1) * (2 * a - 1) <= 4000000 * d2 /\ 4000000 * d2 <= (2 * a + 1) * (2 * a + 1))

PointsOp(x, o) ==
    LET n == Len(x.pts)
        Bad(m) == { << i, j >> \in (1 .. n) \X (1 .. n) : ~Rounded(m[i][j], Dist(x.pts[i], x.pts[j])) }
    IN Need(Len(x.a) = n /\ Bad(x.a) = {}, o, "from_points: distances of " \o ToString(Bad(x.a)))
       \cup Need(Len(x.b) = n /\ Bad(x.b) = {}, o, "par_from_points: distances of " \o ToString(Bad(x.b)))
       \cup Need(x.diff <= 1, o, "from_points and par_from_points differ by " \o ToString(x.diff) \o "e-12")
       \cup Need(~x.metric \/ (x.am /\ x.bm), o, "a set of points is not metric")

\* (x.metric is false for distances so large that rounding exceeds the documented slack)

\* closed tours in the sense of C15
IsClosedTour(p, n) ==
    /\ Len(p) = n + 1
    /\ p[1] = p[Len(p)]
    /\ IsTour(SubSeq(p, 1, n), n)
Known(p, n) == RangeOf(p) \subseteq Cities(n)

HamOp(x, o) ==
    LET p == x.p n == x.n
        Says(v) == Need(x.a = v /\ x.b = v, o, "is_hamiltonian_cycle(" \o ToString(p) \o ") of " \o ToString(n) \o " cities says " \o ToString(<< x.a, x.b >>))
    IN IF ~Known(p, n) THEN Says(FALSE)
       ELSE IF Len(p) >= 2 /\ p[1] = p[Len(p)] THEN Says(IsClosedTour(p, n))
       ELSE {}

HistOp(x, o) ==
    LET h == x.h
        RECURSIVE Walk(_, _, _)
        Walk(i, adj, total) ==
            LET s == x.steps[i + 1]
                bad == Need(Len(s.adj) = x.n, o, "number of vertices changed")
                       \cup Need(\A v \in 1 .. Len(s.adj) : { << e, Cardinality({ j \in 1 .. Len(s.adj[v]) : s.adj[v][j] = e }) >> : e \in RangeOf(s.adj[v]) }
                                                       = { << e, Cardinality({ j \in 1 .. Len(adj[v]) : adj[v][j] = e }) >> : e \in RangeOf(adj[v]) },
                                 o, "after " \o ToString(SubSeq(h, 1, i)) \o " the edges are " \o ToString(s.adj))
                       \cup Need(s.deg = [ v \in 1 .. x.n |-> Degree(adj, v - 1) ], o, "after " \o ToString(SubSeq(h, 1, i)) \o " the degrees are " \o ToString(s.deg))
                       \cup Need(s.k = "num" /\ s.v = total /\ s.dk = "num" /\ s.dv = 2 * total, o,
                                 "after " \o ToString(SubSeq(h, 1, i)) \o " the weights are " \o ToString(<< s.v, s.dv >>))
            IN IF bad # {} \/ i = Len(h) THEN bad
               ELSE Walk(i + 1, AddEdge(adj, h[i + 1][1], h[i + 1][2], h[i + 1][3]), total + h[i + 1][3])
        adj0 == Empty(x.n)
    IN IF Len(x.steps) # Len(h) + 1 THEN { "op " \o ToString(o) \o ": steps are missing" } ELSE Walk(0, adj0, 0)

Reasons(r) ==
    LET c == Get(r, "c", << >>)
        n == Len(c)
        Op(o) == LET x == r.ops[o] IN
            IF x.k # "num" THEN { "op " \o ToString(o) \o ": " \o x.op \o " ended with " \o x.k }
            ELSE CASE x.op = "eval" -> EvalOp(c, x, o)
                   [] x.op = "matrices" -> MatricesOp(c, n, x, o)
                   [] x.op = "points" -> PointsOp(x, o)
                   [] x.op = "ham" -> HamOp(x, o)
                   [] x.op = "hist" -> HistOp(x, o)
    IN UNION { Op(o) : o \in 1 .. Len(r.ops) }

Init == k \in 1 .. Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, Reasons(Trace[k]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
