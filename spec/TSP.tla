------------------------------- MODULE TSP -------------------------------
(***************************************************************************)
(* The vocabulary of the specification: instances, tours, optimal cost,    *)
(* spanning trees, 1-trees, greedy tours, matchings, metric instances.     *)
(*                                                                         *)
(* An instance is a symmetric matrix c of naturals with zero diagonal,     *)
(* given as a sequence of rows. Cities are 0 .. n-1, hence the cost of     *)
(* i -- j is c[i+1][j+1]. Inf stands for a missing edge.                   *)
(*                                                                         *)
(* Everything here is declarative or the textbook algorithm; the machines  *)
(* that model what walky does are in the other modules and are checked     *)
(* against these definitions. SelfCheck.tla checks the fast definitions    *)
(* (Held-Karp, Prim) against brute force.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Functions, TLC

Inf == 1000000000

Cities(n) == 0 .. (n - 1)
C(c, i, j) == c[i + 1][j + 1]

RangeOf(p) == { p[i] : i \in 1 .. Len(p) }
SumSeq(s) == FoldFunction(+, 0, s)

(*------------------------------ instances -------------------------------*)

Pairs(n) == { <<i, j>> \in Cities(n) \X Cities(n) : i < j }

\* the matrix with the upper triangle given by the function f on Pairs(n)
Matrix(n, f) ==
    [ r \in 1 .. n |-> [ k \in 1 .. n |->
        IF r = k THEN 0 ELSE IF r < k THEN f[<<r - 1, k - 1>>] ELSE f[<<k - 1, r - 1>>] ] ]

\* all instances with n cities and costs from W
Instances(n, W) == { Matrix(n, f) : f \in [ Pairs(n) -> W ] }

Symmetric(c, n) == \A i, j \in Cities(n) : C(c, i, j) = C(c, j, i)
IsMetric(c, n) == \A i, j, k \in Cities(n) : C(c, i, j) <= C(c, i, k) + C(c, k, j)

(*-------------------------- tours and their cost ------------------------*)

IsTour(p, n) == Len(p) = n /\ RangeOf(p) = Cities(n)

PathCost(c, p) ==
    IF Len(p) <= 1 THEN 0
    ELSE SumSeq([ i \in 1 .. Len(p) - 1 |-> C(c, p[i], p[i + 1]) ])

CircleCost(c, p) ==
    IF Len(p) <= 1 THEN 0 ELSE PathCost(c, p) + C(c, p[Len(p)], p[1])

Tours(n) == { p \in [ 1 .. n -> Cities(n) ] : RangeOf(p) = Cities(n) }
OptBrute(c, n) == Min({ CircleCost(c, p) : p \in Tours(n) })

\* Held and Karp: T[S][j] is the cost of the cheapest path from city 0
\* through all of S that ends in j \in S; one layer per cardinality of S.
Opt(c, n) ==
    IF n = 1 THEN 0 ELSE
    LET R == 1 .. (n - 1)
        RECURSIVE Layer(_, _)
        Layer(k, T) ==
            IF k = n - 1 THEN T[R]
            ELSE Layer(k + 1, TLCEval([ S \in kSubset(k + 1, R) |->
                    [ j \in S |-> Min({ T[S \ {j}][i] + C(c, i, j) : i \in S \ {j} }) ] ]))
        last == Layer(1, TLCEval([ S \in kSubset(1, R) |-> [ j \in S |-> C(c, 0, j) ] ]))
    IN Min({ last[j] + C(c, j, 0) : j \in R })

\* the cheapest tour among those that start with the prefix p
BestCompletion(c, n, p) ==
    Min({ CircleCost(c, p \o q) : q \in
            { r \in [ 1 .. (n - Len(p)) -> Cities(n) \ RangeOf(p) ] :
                RangeOf(r) = Cities(n) \ RangeOf(p) } })

(*---------------------------- spanning trees ----------------------------*)

\* Prim's algorithm from the smallest vertex of V:
\* weight and vertex set of a minimum spanning tree of its component.
Prim(c, V) ==
    IF V = {} THEN [ w |-> 0, T |-> {} ] ELSE
    LET s == Min(V)
        RECURSIVE Go(_, _, _, _)
        Go(T, out, d, w) ==
            IF out = {} THEN [ w |-> w, T |-> T ]
            ELSE LET v == CHOOSE x \in out : \A y \in out : d[x] <= d[y]
                 IN IF d[v] >= Inf THEN [ w |-> w, T |-> T ]
                    ELSE Go(T \cup {v}, out \ {v},
                            TLCEval([ x \in out \ {v} |->
                                IF C(c, v, x) < d[x] THEN C(c, v, x) ELSE d[x] ]),
                            w + d[v])
    IN Go({s}, V \ {s}, TLCEval([ x \in V \ {s} |-> C(c, s, x) ]), 0)

MSTWeight(c, V) == Prim(c, V).w
Component(c, V) == Prim(c, V).T

\* edges are two-element sets
EdgeCost(c, e) == LET i == Min(e) j == Max(e) IN C(c, i, j)
WeightOf(c, E) == FoldSet(LAMBDA e, a : a + EdgeCost(c, e), 0, E)
AllEdges(V) == { e \in SUBSET V : Cardinality(e) = 2 }

\* the vertices reachable from v through the edges E
Reach(E, v) ==
    LET RECURSIVE Grow(_)
        Grow(S) == LET N == S \cup UNION { e \in E : e \cap S # {} }
                   IN IF N = S THEN S ELSE Grow(N)
    IN Grow({v})

IsSpanningTree(E, V) ==
    /\ V # {}
    /\ Cardinality(E) = Cardinality(V) - 1
    /\ \A e \in E : e \subseteq V
    /\ Reach(E, Min(V)) = V

MSTBrute(c, V) ==
    Min({ WeightOf(c, E) : E \in { F \in SUBSET AllEdges(V) : IsSpanningTree(F, V) } })

(*-------------------------------- 1-trees -------------------------------*)

TwoCheapest(c, n, s) ==
    LET O == Cities(n) \ {s}
    IN IF Cardinality(O) = 1 THEN 2 * C(c, s, CHOOSE x \in O : TRUE)
       ELSE LET a == CHOOSE x \in O : \A y \in O : C(c, s, x) <= C(c, s, y)
            IN C(c, s, a) + Min({ C(c, s, y) : y \in O \ {a} })

OneTreeWeight(c, n, s) == MSTWeight(c, Cities(n) \ {s}) + TwoCheapest(c, n, s)
OneTreeBound(c, n) == Max({ OneTreeWeight(c, n, s) : s \in Cities(n) })

(*---------------------- many cities, few good tours ---------------------*)

\* Is there a tour cheaper than v? Held and Karp again, but without the paths
\* that cannot become one: every city still to be visited costs at least half
\* of its two cheapest edges, the two ends at least half of their cheapest.
CheaperTour(c, n, v) ==
    LET two == TLCEval([ i \in Cities(n) |-> TwoCheapest(c, n, i) ])
        one == TLCEval([ i \in Cities(n) |-> Min({ C(c, i, j) : j \in Cities(n) \ {i} }) ])
        \* T[<< S, j >>] is the cost of the cheapest path from city 0 through S to j \in S
        RECURSIVE Go(_, _)
        Go(k, T) ==
            IF DOMAIN T = {} THEN FALSE
            ELSE IF k = n - 1 THEN \E x \in DOMAIN T : T[x] + C(c, x[2], 0) < v
            ELSE LET steps == UNION { LET rest == (Cities(n) \ x[1]) \ {0}
                                          r == FoldSet(LAMBDA i, a : a + two[i], 0, rest)
                                      IN { << x[1] \cup {i}, i >> :
                                             i \in { j \in rest : 2 * (T[x] + C(c, x[2], j)) + r - two[j] + one[j] + one[0] < 2 * v } }
                                    : x \in DOMAIN T }
                 IN Go(k + 1, TLCEval([ y \in steps |->
                        Min({ T[x] + C(c, x[2], y[2]) : x \in { z \in { << y[1] \ {y[2]}, j >> : j \in y[1] \ {y[2]} } : z \in DOMAIN T } }) ]))
    IN n > 1 /\ Go(1, TLCEval([ x \in { << {j}, j >> : j \in Cities(n) \ {0} } |-> C(c, 0, x[2]) ]))

\* the optimum, given the costs of some tours; something smaller if none of them is optimal
OptOf(c, n, costs) == LET v == Min(costs) IN IF CheaperTour(c, n, v) THEN v - 1 ELSE v

(*----------------------------- greedy tours -----------------------------*)

IsGreedy(c, n, p) ==
    /\ IsTour(p, n)
    /\ \A k \in 1 .. (n - 1) : \A m \in (k + 1) .. n :
            C(c, p[k], p[k + 1]) <= C(c, p[k], p[m])

(*------------------------------- matchings ------------------------------*)

\* a matching is a sequence of pairs
IsPerfectMatching(m, V) ==
    /\ 2 * Len(m) = Cardinality(V)
    /\ UNION { {m[i][1], m[i][2]} : i \in 1 .. Len(m) } = V

MatchingCost(c, m) == SumSeq([ i \in 1 .. Len(m) |-> C(c, m[i][1], m[i][2]) ])

RECURSIVE MinMatching(_, _)
MinMatching(c, V) ==
    IF V = {} THEN 0
    ELSE LET v == Min(V)
         IN Min({ C(c, v, u) + MinMatching(c, V \ {u, v}) : u \in V \ {v} })

(*-------------------------------- helpers -------------------------------*)

CeilLog2(n) == CHOOSE k \in 0 .. 31 : 2^k >= n /\ (k = 0 \/ 2^(k - 1) < n)

Perms(S) == { p \in [ 1 .. Cardinality(S) -> S ] : RangeOf(p) = S }
=============================================================================
