------------------------------ MODULE TraceGen -----------------------------
(***************************************************************************)
(* C18: files written by the generators of the repository, and what the    *)
(* program answers on them. A record is one file:                          *)
(*   how, n       the generator, and the number of cities asked for        *)
(*   good         the generator ended with success, the file is XML        *)
(*   doc          the edges << to, cost >> of each vertex, where a cost is *)
(*                its rank among all costs of the file: equality and order *)
(*                of the costs are exact                                   *)
(*   u            the matrix in units of a fraction of the largest cost    *)
(*                (only if doc is complete), for sums                      *)
(*   p            what the parser made of it; p.m is its matrix of ranks   *)
(*   ops          runs of the program, costs in the units of u             *)
(* Sums in units are off by at most half a unit per term.                  *)
(***************************************************************************)
EXTENDS TraceTour, ProgramOps, GraphOps

Tol(n) == n + 2

MetricUpToUnits(u, n) == \A i, j, l \in Cities(n) : C(u, i, j) <= C(u, i, l) + C(u, l, j) + 2

GItem(u, n, opt, x, y, o) ==
    LET name == x.cmd.sub \o " " \o x.cmd.alg \o " -p " \o x.cmd.par \o " printed " \o y.w \o " " \o ToString(y.v)
        t == Tol(n)
        near(v, w) == v - w <= t /\ w - v <= t
    IN IF y.w \in { "tour", "nntour" }
       THEN IF ~IsTour(y.p, n) THEN { "op " \o ToString(o) \o ": " \o name \o ", no tour: " \o ToString(y.p) }
            ELSE Need(\E z \in RangeOf(x.out) : z.w \in { "cost", "nn" } /\ near(z.v, CircleCost(u, y.p)), o, name \o ", a tour of cost " \o ToString(CircleCost(u, y.p)))
       ELSE IF y.k # "num" THEN { "op " \o ToString(o) \o ": " \o name \o ": no finite number" }
       ELSE CASE y.w = "cost" -> Need(opt >= 0 => near(y.v, opt), o, name \o ", the optimum is " \o ToString(opt))
              [] y.w \in { "nn", "chris" } ->
                    Need(opt >= 0 => y.v >= opt - t, o, name \o ", below the optimum " \o ToString(opt))
                    \cup Need(y.v >= OneTreeBound(u, n) - t, o, name \o ", below the 1-tree bound")
                    \cup Need(y.w = "chris" => y.v <= MSTWeight(u, Cities(n)) + (n \div 2) * MaxCost(u, n) + t, o, name \o ", more than spanning tree and any matching")
                    \cup Need(y.w = "chris" /\ opt >= 0 /\ n <= 5 => 2 * y.v <= 3 * opt + 2 * t, o, name \o ", more than 1.5 times " \o ToString(opt))
              [] y.w = "onetree" -> Need(near(y.v, OneTreeBound(u, n)) /\ (opt >= 0 => y.v <= opt + t), o, name \o ", the bound is " \o ToString(OneTreeBound(u, n)))
              [] y.w = "mst" -> Need(near(y.v, MSTWeight(u, Cities(n))) /\ (opt >= 0 => y.v <= opt + t), o, name \o ", the weight is " \o ToString(MSTWeight(u, Cities(n))))

GKinds(out) == { out[i].w : i \in 1 .. Len(out) }

GRun(u, n, opt, x, o) ==
    IF x.k # "exit" \/ ~x.good THEN { "op " \o ToString(o) \o ": " \o x.cmd.sub \o " " \o x.cmd.alg \o " -p " \o x.cmd.par \o " fails on a generated file" }
    ELSE Need(Required(x.cmd) \subseteq GKinds(x.out), o, x.cmd.sub \o " " \o x.cmd.alg \o " printed only " \o ToString(GKinds(x.out)))
         \cup UNION { GItem(u, n, opt, x, x.out[i], o) : i \in 1 .. Len(x.out) }

File(r) == r.how \o " " \o ToString(r.n)
Say(ok, r, what) == IF ok THEN {} ELSE { File(r) \o ": " \o what }

\* the scripts: each file is named after the number of cities the generator was asked for
ScriptReasons(r) == Say(r.files # << >> /\ \A i \in 1 .. Len(r.files) : r.files[i][1] = r.files[i][2] /\ r.files[i][2] >= 2, r,
                        "files and the numbers of cities the generator was called with: " \o ToString(r.files))

\* the reference implementation of nearest neighbour: a greedy tour and its cost for every start, and its matrix as Rust code
ReferenceReasons(r) ==
    LET n == r.n IN
    IF ~r.good THEN { File(r) \o ": fails" }
    ELSE Say(r.asked = 0 \/ r.asked = n, r, "instead of " \o ToString(r.asked) \o " cities")
         \cup Say(\A i, j \in Cities(n) : C(r.c, i, j) = C(r.c, j, i) /\ C(r.c, i, j) >= 0 /\ (i = j => C(r.c, i, j) = 0), r, "the matrix is not symmetric")
         \cup Say({ r.tours[t].p[1] : t \in { u \in 1 .. Len(r.tours) : Len(r.tours[u].p) > 0 } } = Cities(n) /\ Len(r.tours) = n, r, "not one tour for every start")
         \cup UNION { LET x == r.tours[t] IN
                      IF ~IsTour(x.p, n) THEN { File(r) \o ": no tour: " \o ToString(x.p) }
                      ELSE Say(IsGreedy(r.c, n, x.p), r, "not greedy: " \o ToString(x.p)) \cup Say(CircleCost(r.c, x.p) = x.v, r, "cost of " \o ToString(x.p) \o " is not " \o ToString(x.v)) : t \in 1 .. Len(r.tours) }
         \cup Say(r.code, r, "the Rust code does not compile")
         \cup (IF ~r.code THEN {} ELSE IF Len(r.doc) = n /\ Complete(r.doc) THEN Say(MatrixOf(r.doc) = r.c, r, "the Rust code describes another matrix") ELSE { File(r) \o ": the Rust code is not complete" })

FileReasons(r) ==
    LET n == r.n IN
    IF ~r.good THEN { File(r) \o ": no document" }
    ELSE IF Len(r.doc) # n THEN { File(r) \o ": " \o ToString(Len(r.doc)) \o " vertices" }
    ELSE IF \E v \in 1 .. n : \E e \in 1 .. Len(r.doc[v]) : ~(r.doc[v][e][1] \in Cities(n)) THEN { File(r) \o ": an edge to a city that is not there" }
    ELSE IF ~Complete(r.doc) THEN { File(r) \o ": not complete" }
    ELSE Say(SymmetricCosts(r.doc), r, "not symmetric")
         \cup Say(r.finite, r, "a cost is negative or not finite")
         \cup Say(MetricUpToUnits(r.u, n), r, "violates the triangle inequality")
         \cup Say(r.p.k = "accepted", r, "not accepted: " \o r.p.k)
         \cup (IF r.p.k # "accepted" THEN {}
               ELSE Say(r.p.n = n /\ r.p.m = MatrixOf(r.doc), r, "the parser has read another instance")
                    \cup Say(r.p.metric, r, "not metric for the program")
                    \cup LET opt == IF n <= 9 /\ Len(r.ops) > 0 THEN TLCEval(Opt(r.u, n)) ELSE -1
                         IN UNION { GRun(r.u, n, opt, r.ops[o], o) : o \in 1 .. Len(r.ops) })

GNext == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, LET r == Trace[k] IN CASE r.how = "script" -> ScriptReasons(r) [] r.how = "reference" -> ReferenceReasons(r) [] OTHER -> FileReasons(r))
GSpec == Init /\ [][GNext]_<<k, done>>
=============================================================================
