----------------------------- MODULE Generator -----------------------------
(***************************************************************************)
(* An instance generator: n points are chosen, the table of their          *)
(* distances is filled, the document is written vertex by vertex. Points   *)
(* may coincide. The distance here is the Manhattan distance, so that all  *)
(* numbers are integers; the trace specification judges real distances.    *)
(*                                                                         *)
(* Mode: "walky", and designs that have to fail: "skipzero" (edges of cost *)
(* zero are not written: coinciding points), "upper" (only half of the     *)
(* table is filled), "squared" (squares of distances are written), "last"  *)
(* (one point fewer than asked for), "ids" (vertices are counted from 1),  *)
(* "minor" (leading rows, trailing columns of a larger table).             *)
(***************************************************************************)
EXTENDS GraphOps, Json
CONSTANTS Sizes, Grid, Modes, Emit

VARIABLES mode, n, pts, table, doc, pc
vars == << mode, n, pts, table, doc, pc >>

Abs(x) == IF x < 0 THEN -x ELSE x
Dist(p, q) == LET d == Abs(p[1] - q[1]) + Abs(p[2] - q[2]) IN IF mode = "squared" THEN d * d ELSE d

Points == Grid \X Grid

Init == /\ mode \in Modes /\ n \in Sizes
        /\ pts = << >> /\ table = << >> /\ doc = << >> /\ pc = "choose"

Size == IF mode = "last" THEN n - 1 ELSE n

Choose ==
    /\ pc = "choose"
    /\ IF Len(pts) < Size
       THEN /\ \E p \in Points : pts' = Append(pts, p)
            /\ UNCHANGED pc
       ELSE pc' = "fill" /\ UNCHANGED pts
    /\ UNCHANGED << mode, n, table, doc >>

Fill ==
    /\ pc = "fill"
    /\ table' = [ i \in 1 .. Size |-> [ j \in 1 .. Size |->
            IF i = j \/ (mode = "upper" /\ i > j) THEN 0 ELSE Dist(pts[i], pts[IF mode = "minor" /\ j > 1 THEN 1 + (j % Size) ELSE j]) ] ]
    /\ pc' = "write"
    /\ Emit => PrintT("POINTS " \o ToJson(pts))
    /\ UNCHANGED << mode, n, pts, doc >>

\* one more vertex with all its edges
Write ==
    /\ pc = "write"
    /\ LET i == Len(doc) + 1
           js == SelectSeq([ j \in 1 .. Size |-> j ], LAMBDA j : i # j /\ (mode # "skipzero" \/ table[i][j] # 0))
           k == IF mode = "ids" THEN 0 ELSE 1
       IN IF i <= Size
          THEN doc' = Append(doc, [ x \in 1 .. Len(js) |-> << js[x] - k, table[i][js[x]] >> ]) /\ UNCHANGED pc
          ELSE pc' = "done" /\ UNCHANGED doc
    /\ UNCHANGED << mode, n, pts, table >>

Next == Choose \/ Fill \/ Write \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Valid == pc = "done" => Len(doc) = n /\ ValidDocument(doc)
Accepted == pc = "done" => FullCheck(doc) /\ Accepts(doc)
Metric == pc = "done" /\ ValidDocument(doc) => IsMetric(MatrixOf(doc), n)
\* a principal minor is an instance, too
Minors == pc = "done" /\ ValidDocument(doc) =>
    \A k \in 2 .. n : LET m == [ i \in 1 .. k |-> SelectSeq(doc[i], LAMBDA e : e[1] < k) ]
                      IN ValidDocument(m) /\ IsMetric(MatrixOf(m), k)
=============================================================================
