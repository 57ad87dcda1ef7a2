---------------------------- MODULE TraceProgram ---------------------------
(***************************************************************************)
(* C14: runs of the real program. An operation is a run                    *)
(*   [ cmd, file, size, k, good, out ]                                     *)
(* cmd as in ProgramOps, file "valid" or what is wrong with it ("changing":*)
(* valid when it is read first, and broken when it is read again),         *)
(* k = "exit"                                                              *)
(* if all processes ended on their own, good = all ended with success,     *)
(* out[rank + 1] the results the process printed, [ w, k, v, p ].          *)
(***************************************************************************)
EXTENDS TraceTour, ProgramOps

Show(x) == x.cmd.sub \o " " \o x.cmd.alg \o " -p " \o x.cmd.par \o " -l " \o x.cmd.lb \o " on " \o ToString(x.size) \o " processes"

Item(c, n, opt, metric, cost, x, r, y, o) ==
    LET name == Show(x) \o ": process " \o ToString(r) \o " printed " \o y.w \o " " \o ToString(y.v)
    IN IF y.w \in { "tour", "nntour" }
       THEN IF ~IsTour(y.p, n) THEN { "op " \o ToString(o) \o ": " \o name \o ", no tour: " \o ToString(y.p) }
            ELSE Need(y.w = "tour" => CircleCost(c, y.p) = opt, o, name \o ", a tour of cost " \o ToString(CircleCost(c, y.p)))
                 \cup Need(y.w = "nntour" => IsGreedy(c, n, y.p) /\ CircleCost(c, y.p) = cost, o, name \o ": not greedy or of another cost " \o ToString(y.p))
       ELSE IF y.k # "num" THEN { "op " \o ToString(o) \o ": " \o name \o ": not a sum of costs: " \o y.k }
       ELSE CASE y.w = "cost" -> Need(y.v = opt, o, name \o ", the optimum is " \o ToString(opt))
              [] y.w = "nn" -> Need(BestOf(c, n, y.v, n) /\ (n <= 9 => y.v >= opt), o, name \o ", not the best of all starts")
              [] y.w = "chris" ->
                    Need(n <= 9 => y.v >= opt, o, name \o ", below the optimum " \o ToString(opt))
                    \cup Need(metric => y.v <= MSTWeight(c, Cities(n)) + (n \div 2) * MaxCost(c, n), o, name \o ", more than spanning tree and any matching")
                    \cup Need(metric /\ n <= 5 => 2 * y.v <= 3 * opt, o, name \o ", more than 1.5 times " \o ToString(opt))
              [] y.w = "onetree" -> Need(y.v = OneTreeBound(c, n), o, name \o ", the bound is " \o ToString(OneTreeBound(c, n)))
              [] y.w = "mst" -> Need(y.v = MSTWeight(c, Cities(n)), o, name \o ", the weight is " \o ToString(MSTWeight(c, Cities(n))))

Kinds(out) == { out[i].w : i \in 1 .. Len(out) }

RunOp(c, n, opt, metric, x, o) ==
    IF x.k \notin { "exit", "crash" } THEN { "op " \o ToString(o) \o ": " \o Show(x) \o " (" \o x.file \o " file) ended with " \o x.k }
    ELSE IF x.file \notin { "valid", "changing" } \/ ~Offered(x.cmd)
    THEN Need(~x.good, o, Show(x) \o " succeeded on a file that is " \o x.file)
         \cup Need(\A r \in 1 .. Len(x.out) : x.out[r] = << >>, o, Show(x) \o " printed a result for a file that is " \o x.file \o ": " \o ToString(x.out))
    ELSE IF ~x.good /\ x.file = "valid" THEN { "op " \o ToString(o) \o ": " \o Show(x) \o " failed on a valid file" }
    ELSE Need(x.good => Required(x.cmd) \subseteq Kinds(x.out[1]), o, Show(x) \o " printed only " \o ToString(Kinds(x.out[1])))
         \cup UNION { LET out == x.out[r]
                          nn == { out[i].v : i \in { j \in 1 .. Len(out) : out[j].w = "nn" } }
                      IN Need(Kinds(out) \subseteq Allowed(x.cmd), o, Show(x) \o " printed " \o ToString(Kinds(out)))
                         \cup UNION { Item(c, n, opt, metric, IF nn = {} THEN -1 ELSE CHOOSE v \in nn : TRUE, x, r - 1, out[i], o) : i \in 1 .. Len(out) }
                    : r \in { q \in 1 .. Len(x.out) : \A p \in 1 .. (q - 1) : x.out[p] # x.out[q] } }

PReasons(r) ==
    LET c == Get(r, "c", << >>)
        n == Len(c)
        opt == IF n \in 2 .. 9 /\ (\E o \in 1 .. Len(r.ops) : r.ops[o].file \in { "valid", "changing" }) THEN TLCEval(Opt(c, n))
               ELSE IF Has(r, "known")
               THEN TLCEval(OptOf(c, n, { CircleCost(c, r.known) } \cup
                      { CircleCost(c, y.p) : y \in { z \in UNION { UNION { RangeOf(r.ops[o].out[q]) : q \in 1 .. Len(r.ops[o].out) } : o \in 1 .. Len(r.ops) } :
                                                      z.w = "tour" /\ IsTour(z.p, n) } }))
               ELSE -1
        metric == TLCEval(IsMetric(c, n))
    IN UNION { RunOp(c, n, opt, metric, r.ops[o], o) : o \in 1 .. Len(r.ops) }

PNext == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, PReasons(Trace[k]))
PSpec == Init /\ [][PNext]_<<k, done>>
=============================================================================
