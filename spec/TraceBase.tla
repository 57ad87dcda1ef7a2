----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Frame of the trace specifications. A trace file has one JSON record per *)
(* line: an instance and what was observed of the real code on it. Every   *)
(* record is its own behaviour with two states, pending and judged, so the *)
(* records are judged in parallel. A record that the specification does    *)
(* not allow is printed together with the reasons.                         *)
(***************************************************************************)
EXTENDS TSP, Json, IOUtils, SequencesExt

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

\* S is the set of reasons to reject record k
Judge(k, S) == S = {} \/ PrintT("REJECT " \o ToString(k) \o " " \o ToString(S))

\* the reason `what` for operation number o, unless ok
Need(ok, o, what) == IF ok THEN {} ELSE { "op " \o ToString(o) \o ": " \o what }

Has(x, f) == f \in DOMAIN x
Get(x, f, default) == IF f \in DOMAIN x THEN x[f] ELSE default
=============================================================================
