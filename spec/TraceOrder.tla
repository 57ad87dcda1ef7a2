----------------------------- MODULE TraceOrder ----------------------------
(***************************************************************************)
(* C17: the results of all computations on one instance are ordered:       *)
(* spanning tree <= 1-tree bound <= exact <= approximation. Every pair of  *)
(* variants counts.                                                        *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES k, done

Class(x) == CASE x.op = "mst" -> 1
              [] x.op = "otb" -> 2
              [] x.op \in { "v0", "v1", "v2", "v3", "v4", "v5", "v6", "thr" } -> 3
              [] x.op \in { "nn1", "nn", "nnk", "chris" } -> 4
Name(x) == x.op \o " " \o Get(x, "var", "") \o Get(x, "mode", "")

Reasons(r) ==
    LET c == r.c
        n == Len(c)
        ops == r.ops
        O == 1 .. Len(ops)
        failed == { o \in O : ops[o].k # "num" }
        good == O \ failed
        order == { << a, b >> \in good \X good : Class(ops[a]) < Class(ops[b]) /\ ops[a].v > ops[b].v }
        equal == { << a, b >> \in good \X good : Class(ops[a]) = Class(ops[b]) /\ Class(ops[a]) <= 3 /\ ops[a].v > ops[b].v }
        exact == { o \in good : Class(ops[o]) = 3 }
        log == IF IsMetric(c, n) /\ exact # {}
               THEN LET e == CHOOSE e \in exact : TRUE
                    IN { o \in good : ops[o].op = "nn" /\ 2 * ops[o].v > (CeilLog2(n) + 1) * ops[e].v }
               ELSE {}
    IN { Name(ops[o]) \o " ended with " \o ops[o].k : o \in failed }
       \cup { Name(ops[p[1]]) \o " = " \o ToString(ops[p[1]].v) \o " is more than " \o Name(ops[p[2]]) \o " = " \o ToString(ops[p[2]].v) : p \in order }
       \cup { Name(ops[p[1]]) \o " = " \o ToString(ops[p[1]].v) \o " differs from " \o Name(ops[p[2]]) \o " = " \o ToString(ops[p[2]].v) : p \in equal }
       \cup { Name(ops[o]) \o " = " \o ToString(ops[o].v) \o " is above the bound of Rosenkrantz, Stearns and Lewis" : o \in log }

Init == k \in 1 .. Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, Reasons(Trace[k]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
