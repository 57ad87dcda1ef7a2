---------------------------- MODULE ParserMachine --------------------------
(***************************************************************************)
(* A document is written edge by edge; the checks of the parser accept     *)
(* exactly the valid ones. Also the source of all small documents.         *)
(***************************************************************************)
EXTENDS GraphOps, Json
CONSTANTS Sizes, MaxDeg, W, Emit

VARIABLES adj, at, done
vars == << adj, at, done >>

Init == /\ \E n \in Sizes : adj = Empty(n)
        /\ at = 1 /\ done = FALSE

\* one more edge at vertex at - 1, or on to the next vertex
Edge == /\ at <= Len(adj) /\ Len(adj[at]) < MaxDeg
        /\ \E to \in 0 .. Len(adj), w \in W : adj' = [ adj EXCEPT ![at] = Append(@, << to, w >>) ]
        /\ UNCHANGED << at, done >>
Vertex == /\ at <= Len(adj) /\ at' = at + 1 /\ UNCHANGED << adj, done >>
End == /\ at = Len(adj) + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED << adj, at >>
       /\ ~Emit \/ PrintT("DOC " \o ToJson(adj))
Next == Edge \/ Vertex \/ End
Spec == Init /\ [][Next]_vars

InRange == \A v \in 1 .. Len(adj) : \A k \in 1 .. Len(adj[v]) : adj[v][k][1] < Len(adj)
ExactlyTheValid == done => ((FullCheck(adj) /\ Accepts(adj)) <=> ValidDocument(adj))
CountIsNotEnough == (done /\ InRange) => (AcceptsByCount(adj) <=> ValidDocument(adj))
\* an accepted document determines the matrix, whatever the order of the edges
MatrixIsRight == (done /\ ValidDocument(adj)) =>
    LET n == Len(adj) c == MatrixOf(adj)
    IN /\ Symmetric(c, n)
       /\ \A v \in 1 .. n : \A k \in 1 .. Len(adj[v]) : c[v][adj[v][k][1] + 1] = adj[v][k][2]
=============================================================================
