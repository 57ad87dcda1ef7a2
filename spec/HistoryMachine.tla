--------------------------- MODULE HistoryMachine --------------------------
(* Histories of operations on an adjacency list, also with parallel edges and loops. *)
EXTENDS GraphOps, Json
CONSTANTS Sizes, MaxOps, W, Emit

VARIABLES adj, hist, ends, total
vars == << adj, hist, ends, total >>

Init == /\ \E n \in Sizes : adj = Empty(n) /\ ends = [ v \in 1 .. n |-> 0 ]
        /\ hist = << >> /\ total = 0

Add(u, v, w) ==
    /\ Len(hist) < MaxOps
    /\ adj' = AddEdge(adj, u, v, w)
    /\ hist' = Append(hist, << u, v, w >>)
    /\ ends' = [ ends EXCEPT ![u + 1] = @ + 1, ![v + 1] = @ + 1 ]
    /\ total' = total + w
    /\ (Emit /\ Len(hist') = MaxOps) => PrintT("HIST " \o ToJson([ n |-> Len(adj), h |-> hist' ]))

Next == \E u, v \in Cities(Len(adj)), w \in W : Add(u, v, w)
Spec == Init /\ [][Next]_vars

DegreeIsEnds == \A v \in Cities(Len(adj)) : Degree(adj, v) = ends[v + 1]
WeightIsTwice == DirectedWeight(adj) = 2 * total
BothEnds == \A u, v \in Cities(Len(adj)) : \A w \in W :
    Cardinality({ k \in 1 .. Len(adj[u + 1]) : adj[u + 1][k] = << v, w >> }) =
    Cardinality({ k \in 1 .. Len(adj[v + 1]) : adj[v + 1][k] = << u, w >> })
Handshake == SumSeq([ v \in 1 .. Len(adj) |-> Len(adj[v]) ]) = 2 * Len(hist)
=============================================================================
