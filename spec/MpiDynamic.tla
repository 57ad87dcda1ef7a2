----------------------------- MODULE MpiDynamic ----------------------------
(***************************************************************************)
(* The dynamic MPI exact solver: the root (rank 0) has the pool of         *)
(* prefixes. A worker tells the root the best cost it has found so far     *)
(* (at first: none) and thereby asks for a prefix. The root takes the cost *)
(* over if it is better and answers with the next prefix and the best cost *)
(* known, or with the end marker. When every worker has been told the end, *)
(* all meet at a barrier, the root broadcasts winner and cost, and the     *)
(* winner broadcasts its tour. Abstractions as in MpiStatic.tla.           *)
(*                                                                         *)
(* Mode: "walky", or one of the designs that have to fail: "early" (the    *)
(* root leaves when the pool is empty), "drop" (the root ignores the cost  *)
(* in a message that it answers with the end), "skip" (the root moves on   *)
(* in the pool before it answers), "result" (a worker keeps and reports    *)
(* what it has found last), "firstrank" (the rank of the winner is that    *)
(* of the first message), "tight" (the worker prunes with a bound below    *)
(* the best known cost).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS T, MaxPool, Vals, Modes

Inf == 1000000000
End == -1
Workers == 1 .. T
Ranks == 0 .. T
Root == 0

VARIABLES
    mode, sync,
    prefixes,   \* best completion of every prefix of the pool
    next,       \* index of the next prefix to hand out
    job,        \* job[w]: index of the prefix worker w has got, 0: none
    bound, local, pc, up, down,
    best, who, told,
    cast, tour, got, tours

vars == << mode, sync, prefixes, next, job, bound, local, pc, up, down, best, who, told, cast, tour, got, tours >>
None == [ c |-> -2, r |-> -1 ]

Init ==
    /\ mode \in Modes
    /\ sync \in BOOLEAN
    /\ prefixes \in UNION { [ 1 .. l -> Vals ] : l \in 1 .. MaxPool }
    /\ next = 1
    /\ job = [ w \in Workers |-> 0 ]
    /\ bound = [ w \in Workers |-> Inf ]
    /\ local = [ w \in Workers |-> Inf ]
    /\ pc = [ r \in Ranks |-> IF r = Root THEN "listen" ELSE "report" ]
    /\ up = [ w \in Workers |-> << >> ]
    /\ down = [ w \in Workers |-> << >> ]
    /\ best = Inf /\ who = 0 /\ told = 0
    /\ cast = None /\ tour = -1
    /\ got = [ r \in Ranks |-> None ]
    /\ tours = [ r \in Ranks |-> -1 ]

Report(w) ==
    /\ pc[w] = "report"
    /\ up' = [ up EXCEPT ![w] = Append(@, [ c |-> local[w], r |-> w ]) ]
    /\ pc' = [ pc EXCEPT ![w] = IF sync THEN "sending" ELSE "wait" ]
    /\ UNCHANGED << mode, sync, prefixes, next, job, bound, local, down, best, who, told, cast, tour, got, tours >>

Leaves == IF mode = "early" THEN next > Len(prefixes) ELSE told = T

Listen(w) ==
    /\ pc[Root] = "listen" /\ ~Leaves
    /\ up[w] # << >>
    /\ up' = [ up EXCEPT ![w] = Tail(@) ]
    /\ LET m == Head(up[w])
           more == next <= Len(prefixes)
           better == m.c < best /\ ~(mode = "drop" /\ ~more)
       IN /\ best' = IF better THEN m.c ELSE best
          /\ who' = IF better /\ (mode = "firstrank" => who = 0) THEN m.r ELSE who
          /\ next' = IF more THEN next + 1 ELSE next
          /\ told' = IF more THEN told ELSE told + 1
          /\ LET i == IF ~more THEN End ELSE IF mode = "skip" THEN (IF next + 1 <= Len(prefixes) THEN next + 1 ELSE End) ELSE next
             IN down' = [ down EXCEPT ![m.r] = Append(@, [ b |-> best', i |-> i ]) ]
          /\ pc' = [ pc EXCEPT ![w] = "wait", ![Root] = IF sync THEN "answering" ELSE "listen" ]
    /\ UNCHANGED << mode, sync, prefixes, job, bound, local, cast, tour, got, tours >>

Take(w) ==
    /\ pc[w] = "wait" /\ down[w] # << >>
    /\ LET m == Head(down[w])
       IN /\ bound' = [ bound EXCEPT ![w] = IF mode = "tight" /\ m.b < Inf THEN m.b - 2 ELSE m.b ]
          /\ job' = [ job EXCEPT ![w] = IF m.i = End THEN 0 ELSE m.i ]
          /\ pc' = [ pc EXCEPT ![w] = IF m.i = End THEN "barrier" ELSE "search", ![Root] = IF sync THEN "listen" ELSE @ ]
    /\ down' = [ down EXCEPT ![w] = Tail(@) ]
    /\ UNCHANGED << mode, sync, prefixes, next, local, up, best, who, told, cast, tour, got, tours >>

Finds(v, b) == IF v <= b THEN { v } ELSE { x \in Vals : x >= v } \cup { Inf }

Search(w) ==
    /\ pc[w] = "search"
    /\ \E v \in Finds(prefixes[job[w]], bound[w]) :
        local' = [ local EXCEPT ![w] = IF v < @ \/ (mode = "result" /\ v < Inf) THEN v ELSE @ ]
    /\ job' = [ job EXCEPT ![w] = 0 ]
    /\ pc' = [ pc EXCEPT ![w] = "report" ]
    /\ UNCHANGED << mode, sync, prefixes, next, bound, up, down, best, who, told, cast, tour, got, tours >>

Stop ==
    /\ pc[Root] = "listen" /\ Leaves
    /\ pc' = [ pc EXCEPT ![Root] = "barrier" ]
    /\ UNCHANGED << mode, sync, prefixes, next, job, bound, local, up, down, best, who, told, cast, tour, got, tours >>

Barrier ==
    /\ \A r \in Ranks : pc[r] = "barrier"
    /\ pc' = [ r \in Ranks |-> "cast" ]
    /\ UNCHANGED << mode, sync, prefixes, next, job, bound, local, up, down, best, who, told, cast, tour, got, tours >>

Cast(r) ==
    /\ pc[r] = "cast"
    /\ IF r = Root THEN cast' = [ c |-> best, r |-> who ] ELSE cast # None /\ cast' = cast
    /\ got' = [ got EXCEPT ![r] = cast' ]
    /\ pc' = [ pc EXCEPT ![r] = "path" ]
    /\ UNCHANGED << mode, sync, prefixes, next, job, bound, local, up, down, best, who, told, tour, tours >>

Path(r) ==
    /\ pc[r] = "path"
    /\ IF r = got[r].r THEN tour' = (IF r = Root THEN 0 ELSE local[r]) ELSE tour # -1 /\ tour' = tour
    /\ tours' = [ tours EXCEPT ![r] = tour' ]
    /\ pc' = [ pc EXCEPT ![r] = "end" ]
    /\ UNCHANGED << mode, sync, prefixes, next, job, bound, local, up, down, best, who, told, cast, got >>

AllDone == \A r \in Ranks : pc[r] = "end"
Stutter == AllDone /\ UNCHANGED vars

Next == (\E w \in Workers : Report(w) \/ Listen(w) \/ Take(w) \/ Search(w))
        \/ Stop \/ Barrier \/ (\E r \in Ranks : Cast(r) \/ Path(r)) \/ Stutter
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Opt == Min({ prefixes[i] : i \in 1 .. Len(prefixes) })
Agree == AllDone => \A r \in Ranks : got[r].c = Opt /\ tours[r] = Opt
\* each prefix is handed out once: never to two workers at a time
Once == \A v, w \in Workers : v # w /\ job[v] # 0 => job[v] # job[w]
Known == best # Inf => who \in Workers /\ best >= Opt
BoundOk == \A w \in Workers : bound[w] >= Opt
NeverWorse == [][best' <= best]_best
Clean == AllDone => \A w \in Workers : up[w] = << >> /\ down[w] = << >>
Terminates == <>AllDone
=============================================================================
