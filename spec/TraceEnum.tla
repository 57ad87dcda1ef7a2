----------------------------- MODULE TraceEnum -----------------------------
(* C11: what the enumeration primitives visited, against Enumerate.tla.    *)
EXTENDS TraceBase, Enumerate

VARIABLES k, done

PermOp(x, o) ==
    LET s == x.seen
        bad == { i \in 1 .. (Len(s) - 1) : s[i + 1] # NextPerm(s[i]) }
        m == IF bad = {} THEN 0 ELSE Min(bad)
        last == s[Len(s)]
    IN IF s[1] # x.a THEN { "op " \o ToString(o) \o ": start " \o ToString(s[1]) }
       ELSE Need(bad = {}, o, IF bad = {} THEN "" ELSE "successor of " \o ToString(s[m]) \o " is " \o ToString(NextPerm(s[m])) \o ", got " \o ToString(s[m + 1]))
       \cup Need(x.more \/ NextPerm(last) = << >>, o, "stopped at " \o ToString(last) \o ", starting from " \o ToString(x.a))
       \cup Need(~x.more \/ Len(s) > x.limit, o, "counted wrongly")
       \cup Need(x.more \/ bad # {} \/ Len(s) = CountFrom(x.a), o, "number of arrangements from " \o ToString(x.a))

NextOp(x, o) ==
    LET y == NextDigits(x.d0, x.b)
    IN IF y = << >> THEN Need(x.none, o, "no overflow after " \o ToString(x.d0) \o " in base " \o ToString(x.b) \o ": " \o ToString(x.r))
       ELSE Need(~x.none /\ x.r = y /\ x.d = y, o, "successor of " \o ToString(x.d0) \o " in base " \o ToString(x.b) \o " is " \o ToString(x.r) \o " / " \o ToString(x.d))

SplitOp(x, o) ==
    Need(Len(x.chunks) = x.num /\ Tiles(x.chunks, x.b, x.d), o,
         ToString(x.num) \o " chunks of width " \o ToString(x.d) \o " in base " \o ToString(x.b) \o " do not tile: " \o ToString(x.chunks))

SplitAtOp(x, o) ==
    Need(TilesAt(x.some, x.b, x.d), o,
         x.num \o " chunks of width " \o ToString(x.d) \o " in base " \o ToString(x.b) \o " do not tile: " \o ToString(x.some))

Reasons(r) ==
    LET Op(o) == LET x == r.ops[o] IN
            IF x.k # "num" THEN { "op " \o ToString(o) \o ": " \o x.op \o " ended with " \o x.k }
            ELSE CASE x.op = "perm" -> PermOp(x, o)
                   [] x.op = "next" -> NextOp(x, o)
                   [] x.op = "split" -> SplitOp(x, o)
                   [] x.op = "splitat" -> SplitAtOp(x, o)
    IN UNION { Op(o) : o \in 1 .. Len(r.ops) }

Init == k \in 1 .. Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ Judge(k, Reasons(Trace[k]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
