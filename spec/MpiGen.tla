------------------------------- MODULE MpiGen ------------------------------
(***************************************************************************)
(* Generates schedules for the MPI exact solvers: the order in which the   *)
(* root receives the messages of the workers. Static: worker w sends one   *)
(* message per prefix without repetition in its chunk, and a goodbye.      *)
(* Dynamic: as long as there are prefixes any worker may ask for the next  *)
(* one, then each worker asks once more and is told the end.               *)
(***************************************************************************)
EXTENDS Enumerate, Json, TLC
CONSTANTS MinN, MaxN, MaxT

VARIABLES kind, n, t, d, left, pool, prio, hist, said
vars == << kind, n, t, d, left, pool, prio, hist, said >>

Load(w) ==
    LET ch == Chunk(d, n, t, w - 1)
    IN Cardinality({ v \in ValueOf(ch[1], n) .. ValueOf(ch[2], n) : NoRepeat(DigitsOf(v, n, d)) })

Pool == Cardinality({ p \in [ 1 .. 3 -> 0 .. (n - 1) ] : NoRepeat(p) /\ ~LexLess(p, <<1, 2, 3>>) })

\* prio: workers with a larger number go first; all equal: any order
Prios == { [ w \in 1 .. t |-> 0 ], [ w \in 1 .. t |-> w ], [ w \in 1 .. t |-> t - w ] }
         \cup { [ w \in 1 .. t |-> IF w = u THEN 1 ELSE 0 ] : u \in 1 .. t }
         \cup { [ w \in 1 .. t |-> IF w = u THEN 0 ELSE 1 ] : u \in 1 .. t }

Init ==
    /\ kind \in { "static", "dynamic" }
    /\ n \in MinN .. MaxN
    /\ t \in 2 .. MaxT
    /\ d \in (IF kind = "static" THEN 1 .. 4 ELSE { 3 })
    /\ d <= n /\ (kind = "static" => t < n^d)
    /\ left = [ w \in 1 .. t |-> IF kind = "static" THEN Load(w) + 1 ELSE 1 ]
    /\ pool = IF kind = "static" THEN 0 ELSE Pool
    /\ prio \in Prios
    /\ hist = << >>
    /\ said = FALSE

Receive(w) ==
    /\ left[w] > 0
    /\ \A u \in 1 .. t : left[u] > 0 => prio[u] <= prio[w]
    /\ IF pool > 0 THEN pool' = pool - 1 /\ left' = left
       ELSE pool' = 0 /\ left' = [ left EXCEPT ![w] = @ - 1 ]
    /\ hist' = Append(hist, w)
    /\ UNCHANGED << kind, n, t, d, prio, said >>

Say ==
    /\ ~said /\ \A w \in 1 .. t : left[w] = 0
    /\ PrintT("SCHED " \o ToJson([ kind |-> kind, n |-> n, t |-> t, d |-> d, s |-> hist ]))
    /\ said' = TRUE
    /\ UNCHANGED << kind, n, t, d, left, pool, prio, hist >>

Next == (\E w \in 1 .. t : Receive(w)) \/ Say
Spec == Init /\ [][Next]_vars
=============================================================================
