------------------------- MODULE ChristofidesMachine -----------------------
(***************************************************************************)
(* Christofides: minimum spanning tree (any), perfect matching of its odd  *)
(* vertices (any), their union as a multigraph, an Eulerian cycle by       *)
(* splicing closed walks into each other, and shortcuts.                   *)
(*   "walk"     as in walky                                                *)
(*   "append"   appends the next closed walk at the end (has to fail)      *)
(*   "simple"   drops matching edges that are tree edges (has to fail)     *)
(* AnyEdge: walks may continue along any edge; otherwise along the one to  *)
(* the smallest neighbour.                                                 *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS MinN, MaxN, W, Variants, AnyEdge, AnyTree

VARIABLES variant, c, tree, match, mult, euler, walk, tour, phase
vars == << variant, c, tree, match, mult, euler, walk, tour, phase >>

n == Len(c)
Deg(E, v) == Cardinality({ e \in E : v \in e })
Odd(E) == { v \in Cities(n) : Deg(E, v) % 2 = 1 }

MSTs == IF AnyTree
        THEN { E \in SUBSET AllEdges(Cities(n)) :
                 IsSpanningTree(E, Cities(n)) /\ WeightOf(c, E) = MSTWeight(c, Cities(n)) }
        ELSE { CHOOSE E \in SUBSET AllEdges(Cities(n)) :
                 IsSpanningTree(E, Cities(n)) /\ WeightOf(c, E) = MSTWeight(c, Cities(n)) }

RECURSIVE Matchings(_)
Matchings(S) ==
    IF S = {} THEN { {} }
    ELSE LET v == Min(S) IN UNION { { r \cup {{v, u}} : r \in Matchings(S \ {u, v}) } : u \in S \ {v} }

Init ==
    /\ variant \in Variants
    /\ \E k \in MinN .. MaxN : c \in { x \in Instances(k, W) : IsMetric(x, k) }
    /\ tree \in MSTs
    /\ match \in Matchings(Odd(tree))
    /\ mult = [ e \in tree \cup match |-> IF e \in tree /\ e \in match /\ variant # "simple" THEN 2 ELSE 1 ]
    /\ euler = << 0 >> /\ walk = << >> /\ tour = << >> /\ phase = "euler"

Left(v) == { e \in DOMAIN mult : v \in e /\ mult[e] > 0 }
Other(e, v) == CHOOSE u \in e : u # v

\* open a new closed walk at the first vertex of the cycle that still has edges
Open ==
    /\ phase = "euler" /\ walk = << >>
    /\ \E i \in 1 .. Len(euler) :
        /\ Left(euler[i]) # {} /\ \A j \in 1 .. (i - 1) : Left(euler[j]) = {}
        /\ walk' = << euler[i] >>
    /\ UNCHANGED << variant, c, tree, match, mult, euler, tour, phase >>

Walk ==
    /\ walk # << >> /\ Left(walk[Len(walk)]) # {}
    /\ LET v == walk[Len(walk)]
       IN \E e \in Left(v) :
            /\ AnyEdge \/ \A f \in Left(v) : Other(e, v) <= Other(f, v)
            /\ walk' = Append(walk, Other(e, v))
            /\ mult' = [ mult EXCEPT ![e] = @ - 1 ]
    /\ UNCHANGED << variant, c, tree, match, euler, tour, phase >>

\* the walk is stuck; then it is closed and becomes part of the cycle
Splice ==
    /\ walk # << >> /\ Left(walk[Len(walk)]) = {}
    /\ LET i == Min({ j \in 1 .. Len(euler) : euler[j] = walk[1] })
       IN euler' = IF variant = "append" THEN euler \o walk
                   ELSE SubSeq(euler, 1, i) \o Tail(walk) \o SubSeq(euler, i + 1, Len(euler))
    /\ walk' = << >>
    /\ UNCHANGED << variant, c, tree, match, mult, tour, phase >>

Shortcut ==
    /\ phase = "euler" /\ walk = << >> /\ \A i \in 1 .. Len(euler) : Left(euler[i]) = {}
    /\ LET keep(i) == \A j \in 1 .. (i - 1) : euler[j] # euler[i]
           RECURSIVE Go(_)
           Go(i) == IF i > Len(euler) THEN << >> ELSE (IF keep(i) THEN << euler[i] >> ELSE << >>) \o Go(i + 1)
       IN tour' = Append(Go(1), euler[1])
    /\ phase' = "done"
    /\ UNCHANGED << variant, c, tree, match, mult, euler, walk >>

Next == Open \/ Walk \/ Splice \/ Shortcut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WalkCloses == (walk # << >> /\ Left(walk[Len(walk)]) = {}) => walk[1] = walk[Len(walk)]
EulerIsEuler == phase = "done" =>
    /\ \A e \in DOMAIN mult : mult[e] = 0
    /\ euler[1] = euler[Len(euler)]
    /\ Len(euler) = 1 + Cardinality(tree) + Cardinality(match)
    /\ PathCost(c, euler) = WeightOf(c, tree) + WeightOf(c, match)
TourIsTour == phase = "done" =>
    /\ Len(tour) = n + 1 /\ tour[1] = tour[n + 1]
    /\ IsTour(SubSeq(tour, 1, n), n)
WithinBound == phase = "done" =>
    /\ PathCost(c, tour) <= WeightOf(c, tree) + WeightOf(c, match)
    /\ PathCost(c, tour) >= Opt(c, n)
    /\ WeightOf(c, match) = MinMatching(c, Odd(tree)) => 2 * PathCost(c, tour) <= 3 * Opt(c, n)
Terminates == <>(phase = "done")
=============================================================================
