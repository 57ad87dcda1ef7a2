---------------------------- MODULE ThreadedGen ----------------------------
(***************************************************************************)
(* Generates schedules for the multi-threaded exact solver: the order in   *)
(* which workers enter the critical section. The number of entries of each *)
(* worker is the number of its prefixes without repetition.                *)
(***************************************************************************)
EXTENDS Enumerate, Json, TLC
CONSTANTS MinN, MaxN

VARIABLES n, t, left, prio, hist, said
vars == << n, t, left, prio, hist, said >>

Load(m, s, w) ==
    LET ch == Chunk(3, m, s, w)
    IN Cardinality({ v \in ValueOf(ch[1], m) .. ValueOf(ch[2], m) : NoRepeat(DigitsOf(v, m, 3)) })

\* prio: workers with a larger number go first; all equal: any order
Init ==
    /\ n \in MinN .. MaxN
    /\ t \in 2 .. 5 /\ t < n
    /\ left = [ w \in 0 .. (t - 1) |-> Load(n, t, w) ]
    /\ prio \in { [ w \in 0 .. (t - 1) |-> 0 ] }
                \cup { [ w \in 0 .. (t - 1) |-> IF w = u THEN 1 ELSE 0 ] : u \in 0 .. (t - 1) }
                \cup { [ w \in 0 .. (t - 1) |-> IF w = u THEN 0 ELSE 1 ] : u \in 0 .. (t - 1) }
                \cup { [ w \in 0 .. (t - 1) |-> t - w ] }
    /\ hist = << >>
    /\ said = FALSE

Enter(w) ==
    /\ left[w] > 0
    /\ \A u \in 0 .. (t - 1) : left[u] > 0 => prio[u] <= prio[w]
    /\ left' = [ left EXCEPT ![w] = @ - 1 ]
    /\ hist' = Append(hist, w)
    /\ UNCHANGED << n, t, prio, said >>

Say ==
    /\ ~said /\ \A w \in 0 .. (t - 1) : left[w] = 0
    /\ PrintT("SCHED " \o ToJson([ n |-> n, t |-> t, s |-> hist ]))
    /\ said' = TRUE
    /\ UNCHANGED << n, t, left, prio, hist >>

Next == (\E w \in 0 .. (t - 1) : Enter(w)) \/ Say
Spec == Init /\ [][Next]_vars
=============================================================================
