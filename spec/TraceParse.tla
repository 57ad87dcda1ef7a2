----------------------------- MODULE TraceParse ----------------------------
(***************************************************************************)
(* C10: documents and what the parser made of them. x.doc is the adjacency *)
(* list the document describes, x.head its header; documents that describe *)
(* none (truncated, malformed) have x.broken = TRUE.                       *)
(***************************************************************************)
EXTENDS TraceBase, GraphOps

VARIABLES k, done

ParseOp(x, o) ==
    IF x.k \notin { "accepted", "rejected", "panic" } THEN { "op " \o ToString(o) \o ": parser ended with " \o x.k }
    ELSE IF x.broken THEN Need(x.k # "accepted", o, "accepted a malformed document (" \o x.how \o ")")
    ELSE IF ~ValidDocument(x.doc) THEN Need(x.k # "accepted", o, "accepted an invalid graph (" \o x.how \o "): " \o ToString(x.doc))
    ELSE IF x.k # "accepted" /\ Len(x.doc) < 2 THEN {}     \* a single city: out of scope, either is fine
    ELSE IF x.k # "accepted" THEN { "op " \o ToString(o) \o ": refused a valid document (" \o x.how \o "): " \o ToString(x.doc) }
    ELSE LET m == MatrixOf(x.doc)
         IN Need(x.n = Len(x.doc), o, "number of cities is " \o ToString(x.n))
            \cup Need(x.m = m, o, "costs (" \o x.how \o ") are " \o ToString(x.m) \o ", written were " \o ToString(m))
            \cup Need(x.w = m, o, "costs in the other matrix (" \o x.how \o ") are " \o ToString(x.w) \o ", written were " \o ToString(m))
            \cup Need([ name |-> x.name, source |-> x.source, description |-> x.description, dp |-> x.dp, ig |-> x.ig ] = x.head, o, "header fields changed")

Reasons(r) == UNION { ParseOp(r.ops[o], o) : o \in 1 .. Len(r.ops) }

Init == k \in 1 .. Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, Reasons(Trace[k]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
