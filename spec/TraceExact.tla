----------------------------- MODULE TraceExact ----------------------------
(***************************************************************************)
(* C01, C02: results of the sequential and multi-threaded exact solvers    *)
(* against the oracle Opt, which BranchBound.tla shows the machines of the *)
(* solvers to reach.                                                       *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES k, done

Reasons(r) ==
    LET c == r.c
        n == Len(c)
        \* with many cities it is enough that no tour is cheaper than the best one that is known
        opt == TLCEval(IF n <= 11 THEN Opt(c, n)
                       ELSE OptOf(c, n, { CircleCost(c, r.known) } \cup
                                { CircleCost(c, r.ops[o].p) : o \in { q \in 1 .. Len(r.ops) : Has(r.ops[q], "p") /\ IsTour(r.ops[q].p, n) } }))
        Op(o) ==
            LET x == r.ops[o] name == x.op \o (IF Has(x, "t") THEN " with " \o ToString(x.t) \o " threads" ELSE "")
            IN IF x.k # "num" THEN { "op " \o ToString(o) \o ": " \o name \o " returned no cost (" \o x.k \o ")" }
               ELSE IF ~IsTour(x.p, n) THEN { "op " \o ToString(o) \o ": " \o name \o " returned no tour: " \o ToString(x.p) }
               ELSE Need(x.v = CircleCost(c, x.p), o, name \o " reported " \o ToString(x.v) \o " for a tour of cost " \o ToString(CircleCost(c, x.p)))
                    \cup Need(x.v <= opt, o, name \o " returned " \o ToString(x.v) \o ", optimum is " \o ToString(opt))
                    \cup Need(x.v >= opt, o, name \o " returned " \o ToString(x.v) \o " below the optimum " \o ToString(opt))
    IN UNION { Op(o) : o \in 1 .. Len(r.ops) }

Init == k \in 1 .. Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, Reasons(Trace[k]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
