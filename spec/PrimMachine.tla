---------------------------- MODULE PrimMachine ----------------------------
(***************************************************************************)
(* Prim's algorithm as walky runs it, over a frontier that remembers for   *)
(* every vertex outside of the tree the cheapest known edge into the tree. *)
(*                                                                         *)
(*   "vec"     frontier in a vector (sequential and multi-threaded)        *)
(*   "pq"      frontier in a priority queue with decrease-key              *)
(*   "rewire"  as "pq", but changes the parent also without a cheaper edge *)
(*             (a defect that has been repaired; has to fail)              *)
(* Ties are broken in every possible way.                                  *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS MaxN, W, Variants

VARIABLES variant, c, excl, dist, to, used, edges, done
vars == << variant, c, excl, dist, to, used, edges, done >>

n == Len(c)
V == Cities(n) \ excl
Start == Min(V)

Init ==
    /\ variant \in Variants
    /\ \E m \in 1 .. MaxN : c \in Instances(m, W)
    /\ excl \in SUBSET Cities(n)
    /\ dist = [ v \in Cities(n) |-> IF V # {} /\ v = Start THEN 0 ELSE Inf ]
    /\ to = [ v \in Cities(n) |-> IF V # {} /\ v = Start THEN v ELSE n ]
    /\ used = excl
    /\ edges = {}
    /\ done = (V = {})

Take ==
    /\ ~done
    /\ LET out == Cities(n) \ used
       IN IF out = {} \/ \A v \in out : dist[v] = Inf
          THEN done' = TRUE /\ UNCHANGED << dist, to, used, edges >>
          ELSE \E v \in out :
                /\ \A u \in out : dist[v] <= dist[u]
                /\ used' = used \cup {v}
                /\ edges' = IF v = Start THEN edges ELSE edges \cup {{v, to[v]}}
                /\ dist' = [ u \in Cities(n) |->
                                IF u \notin used' /\ C(c, v, u) < dist[u] THEN C(c, v, u) ELSE dist[u] ]
                /\ to' = [ u \in Cities(n) |->
                                IF u \notin used' /\ (C(c, v, u) < dist[u] \/ (variant = "rewire" /\ dist[u] # Inf))
                                THEN v ELSE to[u] ]
                /\ UNCHANGED done
    /\ UNCHANGED << variant, c, excl >>

Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Tree == used \ excl

\* what has been built is a tree on the used vertices ...
IsTree == Tree # {} => IsSpanningTree(edges, Tree)
\* ... of edges of the graph ...
IsEdges == \A e \in edges : EdgeCost(c, e) < Inf
\* ... and always part of a minimum spanning tree (checked by brute force)
IsPromising ==
    (V # {} /\ Component(c, V) = V) =>
        \E E \in SUBSET AllEdges(V) :
            edges \subseteq E /\ IsSpanningTree(E, V) /\ WeightOf(c, E) = MSTWeight(c, V)
IsMinimal == (done /\ V # {}) =>
    /\ Tree = Component(c, V)
    /\ WeightOf(c, edges) = MSTWeight(c, V)
Terminates == <>done
=============================================================================
