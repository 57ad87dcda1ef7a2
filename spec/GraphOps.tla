------------------------------ MODULE GraphOps -----------------------------
(***************************************************************************)
(* Adjacency lists as read from a document: adj[v + 1] is the sequence of  *)
(* edges << to, cost >> at vertex v, in the order of the document.         *)
(***************************************************************************)
EXTENDS TSP

Targets(adj, v) == [ k \in 1 .. Len(adj[v + 1]) |-> adj[v + 1][k][1] ]

(*------------- what a valid document is (declaratively) -----------------*)

HasEdge(adj, u, v, w) == \E k \in 1 .. Len(adj[u + 1]) : adj[u + 1][k] = << v, w >>

Complete(adj) ==
    LET n == Len(adj)
    IN \A u \in Cities(n) :
        /\ Len(adj[u + 1]) = n - 1
        /\ { adj[u + 1][k][1] : k \in 1 .. Len(adj[u + 1]) } = Cities(n) \ {u}
SymmetricCosts(adj) ==
    \A u \in Cities(Len(adj)) : \A k \in 1 .. Len(adj[u + 1]) :
        HasEdge(adj, adj[u + 1][k][1], u, adj[u + 1][k][2])
ValidDocument(adj) == Complete(adj) /\ SymmetricCosts(adj)

\* the matrix a valid document describes
MatrixOf(adj) ==
    LET n == Len(adj)
    IN [ r \in 1 .. n |-> [ s \in 1 .. n |->
            IF r = s THEN 0
            ELSE LET k == CHOOSE k \in 1 .. Len(adj[r]) : adj[r][k][1] = s - 1 IN adj[r][k][2] ] ]

(*------------- the three checks, one after the other --------------------*)

FullCheck(adj) ==
    LET n == Len(adj)
    IN \A u \in Cities(n) : Len(adj[u + 1]) = n - 1
            /\ \A k \in 1 .. Len(adj[u + 1]) : adj[u + 1][k][1] < n /\ adj[u + 1][k][1] # u
MultiCheck(adj) ==
    \E u \in Cities(Len(adj)) : Cardinality(RangeOf(Targets(adj, u))) # Len(adj[u + 1])
\* compares each edge with the first edge back, if there is one
UndirectedCheck(adj) ==
    \A u \in Cities(Len(adj)) : \A k \in 1 .. Len(adj[u + 1]) :
        LET v == adj[u + 1][k][1]
            back == { m \in 1 .. Len(adj[v + 1]) : adj[v + 1][m][1] = u }
        IN back = {} \/ adj[v + 1][Min(back)][2] = adj[u + 1][k][2]

Accepts(adj) == FullCheck(adj) /\ ~MultiCheck(adj) /\ UndirectedCheck(adj)
\* the completeness check that only counts (a repaired defect)
AcceptsByCount(adj) ==
    /\ \A u \in Cities(Len(adj)) : Len(adj[u + 1]) = Len(adj) - 1
    /\ ~MultiCheck(adj)
    /\ \A u \in Cities(Len(adj)) : \A k \in 1 .. Len(adj[u + 1]) : adj[u + 1][k][1] < Len(adj)
    /\ UndirectedCheck(adj)

(*------------------------------ operations ------------------------------*)

Empty(n) == [ v \in 1 .. n |-> << >> ]
AddEdge(adj, u, v, w) ==
    LET a == [ adj EXCEPT ![u + 1] = Append(@, << v, w >>) ]
    IN [ a EXCEPT ![v + 1] = Append(@, << u, w >>) ]

Degree(adj, v) == Len(adj[v + 1])
DirectedWeight(adj) ==
    SumSeq([ v \in 1 .. Len(adj) |-> SumSeq([ k \in 1 .. Len(adj[v]) |-> adj[v][k][2] ]) ])
=============================================================================
