----------------------------- MODULE MpiStatic -----------------------------
(***************************************************************************)
(* The static MPI exact solver: T workers and the root (rank 0). Worker w  *)
(* goes through its own chunk of prefixes. After each one it sends its     *)
(* best cost to the root and waits for the best cost known there, which it *)
(* uses for pruning; at the end it says goodbye. The root answers until    *)
(* all have said goodbye; then all meet at a barrier, the root broadcasts  *)
(* winner and cost, and the winner broadcasts its tour.                    *)
(*                                                                         *)
(* A prefix is abstracted to the cost of its best completion: the search   *)
(* finds exactly that if it is not above the bound, otherwise possibly     *)
(* something worse, or nothing. A tour is abstracted to its cost.          *)
(*                                                                         *)
(* sync says whether a send has to wait for the receiver (MPI allows both).*)
(*                                                                         *)
(* Mode: "walky" is what walky does. The others are designs that have to   *)
(* fail: "early" (the root does not wait for the last goodbye), "silent"   *)
(* (a worker without prefixes says no goodbye), "stale" (the root updates  *)
(* the cost, but keeps the rank of the first), "last" (a worker keeps its  *)
(* last tour instead of its best), "noanswer" (the root answers only if    *)
(* the bound has changed), "overwrite" (the root takes over every cost).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS T, MaxLoad, Vals, Modes

Inf == 1000000000
Workers == 1 .. T
Ranks == 0 .. T
Root == 0

VARIABLES
    mode, sync,
    work,    \* work[w]: best completions of the prefixes still to be done
    all,     \* those of all prefixes
    bound,   \* bound[w]: the best cost worker w has been told
    local,   \* local[w]: cost of the tour worker w holds
    said,    \* said[w]: the cost it reports
    pc,
    up,      \* up[w]: messages from w to the root, in order
    down,    \* down[w]: messages from the root to w, in order
    best, who, gone,          \* of the root
    cast, tour,               \* what has been broadcast
    got, tours                \* what each rank holds at the end

vars == << mode, sync, work, all, bound, local, said, pc, up, down, best, who, gone, cast, tour, got, tours >>
None == [ c |-> -2, r |-> -1 ]

Init ==
    /\ mode \in Modes
    /\ sync \in BOOLEAN
    /\ \E load \in [ Workers -> 0 .. MaxLoad ] :
            work \in { f \in [ Workers -> UNION { [ 1 .. l -> Vals ] : l \in 0 .. MaxLoad } ] :
                        \A w \in Workers : Len(f[w]) = load[w] }
    \* somebody has something to do
    /\ \E w \in Workers : work[w] # << >>
    /\ all = UNION { { work[w][i] : i \in 1 .. Len(work[w]) } : w \in Workers }
    /\ bound = [ w \in Workers |-> Inf ]
    /\ local = [ w \in Workers |-> Inf ]
    /\ said = [ w \in Workers |-> Inf ]
    /\ pc = [ r \in Ranks |-> IF r = Root THEN "listen" ELSE "search" ]
    /\ up = [ w \in Workers |-> << >> ]
    /\ down = [ w \in Workers |-> << >> ]
    /\ best = Inf /\ who = 0 /\ gone = 0
    /\ cast = None /\ tour = -1
    /\ got = [ r \in Ranks |-> None ]
    /\ tours = [ r \in Ranks |-> -1 ]

\* what the search of a prefix with best completion v can return if costs above b are cut off
Finds(v, b) == IF v <= b THEN { v } ELSE { x \in Vals : x >= v } \cup { Inf }

Search(w) ==
    /\ pc[w] = "search" /\ work[w] # << >>
    /\ work' = [ work EXCEPT ![w] = Tail(@) ]
    /\ \E v \in Finds(Head(work[w]), bound[w]) :
        LET m == IF mode = "last" THEN (IF v < Inf THEN v ELSE local[w]) ELSE IF v < local[w] THEN v ELSE local[w]
            best0 == IF v < said[w] THEN v ELSE said[w]
        IN /\ local' = [ local EXCEPT ![w] = m ]
           /\ said' = [ said EXCEPT ![w] = best0 ]
           /\ up' = [ up EXCEPT ![w] = Append(@, [ c |-> best0, r |-> w ]) ]
    /\ pc' = [ pc EXCEPT ![w] = IF sync THEN "sending" ELSE "wait" ]
    /\ UNCHANGED << mode, sync, all, bound, down, best, who, gone, cast, tour, got, tours >>

\* the chunk is done
Bye(w) ==
    /\ pc[w] = "search" /\ work[w] = << >>
    /\ IF mode = "silent" /\ said[w] = Inf
       THEN up' = up /\ pc' = [ pc EXCEPT ![w] = "barrier" ]
       ELSE /\ up' = [ up EXCEPT ![w] = Append(@, [ c |-> -1, r |-> w ]) ]
            /\ pc' = [ pc EXCEPT ![w] = IF sync THEN "leaving" ELSE "barrier" ]
    /\ UNCHANGED << mode, sync, work, all, bound, local, said, down, best, who, gone, cast, tour, got, tours >>

Answer(w) ==
    /\ pc[w] = "wait" /\ down[w] # << >>
    /\ bound' = [ bound EXCEPT ![w] = Head(down[w]) ]
    /\ down' = [ down EXCEPT ![w] = Tail(@) ]
    /\ pc' = [ pc EXCEPT ![w] = "search", ![Root] = IF sync THEN "listen" ELSE @ ]
    /\ UNCHANGED << mode, sync, work, all, local, said, up, best, who, gone, cast, tour, got, tours >>

Quota == IF mode = "early" THEN T - 1 ELSE T

\* the root takes the next message of any worker
Listen(w) ==
    /\ pc[Root] = "listen" /\ gone < Quota
    /\ up[w] # << >>
    /\ up' = [ up EXCEPT ![w] = Tail(@) ]
    /\ LET m == Head(up[w])
           better == m.c < best
           after == IF pc[w] = "sending" THEN "wait" ELSE IF pc[w] = "leaving" THEN "barrier" ELSE pc[w]
       IN IF m.c >= 0
          THEN /\ best' = IF better \/ mode = "overwrite" THEN m.c ELSE best
               /\ who' = IF (better \/ mode = "overwrite") /\ (mode = "stale" => who = 0) THEN m.r ELSE who
               /\ gone' = gone
               /\ IF mode = "noanswer" /\ ~better
                  THEN down' = down /\ pc' = [ pc EXCEPT ![w] = after ]
                  ELSE /\ down' = [ down EXCEPT ![m.r] = Append(@, best') ]
                       /\ pc' = [ pc EXCEPT ![w] = after, ![Root] = IF sync THEN "answering" ELSE "listen" ]
          ELSE /\ gone' = gone + 1
               /\ pc' = [ pc EXCEPT ![w] = after ]
               /\ UNCHANGED << best, who, down >>
    /\ UNCHANGED << mode, sync, work, all, bound, local, said, cast, tour, got, tours >>

Stop ==
    /\ pc[Root] = "listen" /\ gone = Quota
    /\ pc' = [ pc EXCEPT ![Root] = "barrier" ]
    /\ UNCHANGED << mode, sync, work, all, bound, local, said, up, down, best, who, gone, cast, tour, got, tours >>

Barrier ==
    /\ \A r \in Ranks : pc[r] = "barrier"
    /\ pc' = [ r \in Ranks |-> "cast" ]
    /\ UNCHANGED << mode, sync, work, all, bound, local, said, up, down, best, who, gone, cast, tour, got, tours >>

\* the root broadcasts winner and cost
Cast(r) ==
    /\ pc[r] = "cast"
    /\ IF r = Root THEN cast' = [ c |-> best, r |-> who ] ELSE cast # None /\ cast' = cast
    /\ got' = [ got EXCEPT ![r] = cast' ]
    /\ pc' = [ pc EXCEPT ![r] = "path" ]
    /\ UNCHANGED << mode, sync, work, all, bound, local, said, up, down, best, who, gone, tour, tours >>

\* the winner broadcasts the tour it holds
Path(r) ==
    /\ pc[r] = "path"
    /\ IF r = got[r].r THEN tour' = (IF r = Root THEN 0 ELSE local[r]) ELSE tour # -1 /\ tour' = tour
    /\ tours' = [ tours EXCEPT ![r] = tour' ]
    /\ pc' = [ pc EXCEPT ![r] = "end" ]
    /\ UNCHANGED << mode, sync, work, all, bound, local, said, up, down, best, who, gone, cast, got >>

AllDone == \A r \in Ranks : pc[r] = "end"
Stutter == AllDone /\ UNCHANGED vars

Next == (\E w \in Workers : Search(w) \/ Bye(w) \/ Answer(w) \/ Listen(w))
        \/ Stop \/ Barrier \/ (\E r \in Ranks : Cast(r) \/ Path(r)) \/ Stutter
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Opt == Min(all)
\* all ranks return the optimum and a tour of that cost
Agree == AllDone => \A r \in Ranks : got[r].c = Opt /\ tours[r] = Opt
\* the root never knows a cost that no worker has found, and it never gets worse
Known == best # Inf => who \in Workers /\ best >= Opt
NeverWorse == [][best' <= best]_best
\* nobody prunes what is needed
BoundOk == \A w \in Workers : bound[w] >= Opt
Clean == AllDone => \A w \in Workers : up[w] = << >> /\ down[w] = << >>
Terminates == <>AllDone
=============================================================================
