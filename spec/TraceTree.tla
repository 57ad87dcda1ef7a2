----------------------------- MODULE TraceTree -----------------------------
(***************************************************************************)
(* C05, C06: spanning trees and 1-trees of the real code against TSP.tla.  *)
(* An adjacency list is observed as adj[u + 1] = sequence of << v, cost >>.*)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES k, done

Ends(adj, u) == [ i \in 1 .. Len(adj[u + 1]) |-> adj[u + 1][i][1] ]

\* every entry is an edge of the graph, and is recorded at both of its ends equally often
Consistent(c, n, adj) ==
    /\ Len(adj) = n
    /\ \A u \in Cities(n) : \A i \in 1 .. Len(adj[u + 1]) :
            LET v == adj[u + 1][i][1]
            IN /\ v \in Cities(n) /\ v # u
               /\ adj[u + 1][i][2] = C(c, u, v) /\ C(c, u, v) < Inf
               /\ Cardinality({ j \in 1 .. Len(adj[u + 1]) : adj[u + 1][j][1] = v })
                  = Cardinality({ j \in 1 .. Len(adj[v + 1]) : adj[v + 1][j][1] = u })

Simple(adj) == \A u \in 1 .. Len(adj) : Cardinality(RangeOf(Ends(adj, u - 1))) = Len(adj[u])
EdgesOf(adj) == UNION { { { u, v } : v \in RangeOf(Ends(adj, u)) } : u \in Cities(Len(adj)) }

MstOp(c, n, x, o) ==
    LET ex == IF Has(x, "ex") THEN RangeOf(x.ex) ELSE {}
        V == Cities(n) \ ex
        name == x.op \o " " \o x.var \o " without " \o ToString(ex)
        p == TLCEval(Prim(c, V))
    IN IF V = {} THEN Need(\A u \in 1 .. Len(x.adj) : x.adj[u] = << >>, o, name \o " has edges although every vertex is excluded")
       ELSE IF ~Consistent(c, n, x.adj) THEN { "op " \o ToString(o) \o ": " \o name \o " is no subgraph, recorded at both ends: " \o ToString(x.adj) }
       ELSE LET E == EdgesOf(x.adj)
            IN Need(Simple(x.adj), o, name \o " has parallel edges " \o ToString(x.adj))
               \cup Need(IsSpanningTree(E, p.T), o, name \o " is no spanning tree of " \o ToString(p.T) \o ": " \o ToString(E))
               \cup Need(x.v = p.w /\ WeightOf(c, E) = p.w, o, name \o " weighs " \o ToString(x.v) \o ", minimum is " \o ToString(p.w))
               \cup Need(x.dv = 2 * p.w, o, name \o ": directed weight " \o ToString(x.dv))

OneTreeOp(c, n, x, o) ==
    LET s == x.s
        name == "1-tree at " \o ToString(s)
        rest == Cities(n) \ {s}
        w == TLCEval(MSTWeight(c, rest))
        \* the tree without the special vertex
        adj0 == [ u \in 1 .. n |-> IF u = s + 1 THEN << >> ELSE SelectSeq(x.adj[u], LAMBDA e : e[1] # s) ]
        E == EdgesOf(adj0)
        spokes == Ends(x.adj, s)
    IN IF ~Consistent(c, n, x.adj) THEN { "op " \o ToString(o) \o ": " \o name \o " is no subgraph, recorded at both ends: " \o ToString(x.adj) }
       ELSE Need(Simple(adj0) /\ IsSpanningTree(E, rest) /\ WeightOf(c, E) = w, o,
                 name \o " is no minimum spanning tree of the others: " \o ToString(E))
            \cup Need(Len(spokes) = 2 /\ (n > 2 => spokes[1] # spokes[2])
                      /\ C(c, s, spokes[1]) + C(c, s, spokes[2]) = TwoCheapest(c, n, s), o,
                      name \o " has not the two cheapest edges: " \o ToString(spokes))
            \cup Need(x.v = w + TwoCheapest(c, n, s), o, name \o " weighs " \o ToString(x.v))

Reasons(r) ==
    LET c == r.c
        n == Len(c)
        bounds == \E o \in 1 .. Len(r.ops) : r.ops[o].op = "otb"
        b == IF bounds THEN TLCEval(OneTreeBound(c, n)) ELSE 0
        opt == IF bounds /\ n <= 8 THEN TLCEval(Opt(c, n)) ELSE 0
        Op(o) == LET x == r.ops[o] IN
            IF x.k # "num" THEN { "op " \o ToString(o) \o ": " \o x.op \o " ended with " \o x.k }
            ELSE CASE x.op = "mst" -> MstOp(c, n, x, o)
                   [] x.op = "onetree" -> OneTreeOp(c, n, x, o)
                   [] x.op = "otb" ->
                        Need(x.v = b, o, "1-tree bound (" \o x.mode \o ") " \o ToString(x.v) \o ", the maximum is " \o ToString(b))
                           \cup (IF n <= 8 THEN Need(x.v <= opt, o, "1-tree bound " \o ToString(x.v) \o " above the optimum") ELSE {})
    IN UNION { Op(o) : o \in 1 .. Len(r.ops) }

Init == k \in 1 .. Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, Reasons(Trace[k]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
