----------------------------- MODULE Threaded ------------------------------
(***************************************************************************)
(* The multi-threaded exact solver: every worker goes through its own      *)
(* chunk of prefixes; for each it searches (without looking at the others) *)
(* the best completion and then updates the shared best tour under a lock. *)
(*                                                                         *)
(* A prefix is abstracted to the cost of its best completion. Mode says    *)
(* how the update is done: "lock" as in walky, "outside" compares before   *)
(* the lock is taken, "overwrite" does not compare - both have to fail.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Functions, TLC
CONSTANTS T, MaxLoad, Vals, Modes

Inf == 1000000000
Workers == 1 .. T

VARIABLES
    mode,
    work,    \* work[w]: costs of the prefixes worker w still has to process
    all,     \* the costs of all prefixes of all chunks
    found,   \* found[w]: result of the prefix it has just searched
    pc,      \* "search", "enter", "locked", "done"
    owner,   \* who holds the lock, 0 if nobody
    best,    \* shared best cost ...
    who      \* ... and who found it

vars == << mode, work, all, found, pc, owner, best, who >>

Init ==
    /\ mode \in Modes
    /\ \E load \in [ Workers -> 0 .. MaxLoad ] :
            work \in { f \in [ Workers -> UNION { [ 1 .. l -> Vals ] : l \in 0 .. MaxLoad } ] :
                        \A w \in Workers : Len(f[w]) = load[w] }
    /\ all = UNION { { work[w][i] : i \in 1 .. Len(work[w]) } : w \in Workers }
    /\ found = [ w \in Workers |-> Inf ]
    /\ pc = [ w \in Workers |-> "search" ]
    /\ owner = 0
    /\ best = Inf
    /\ who = 0

\* the search of one prefix finds its best completion, or nothing
Search(w) ==
    /\ pc[w] = "search"
    /\ IF work[w] = << >>
       THEN pc' = [ pc EXCEPT ![w] = "done" ] /\ UNCHANGED << work, found >>
       ELSE /\ found' = [ found EXCEPT ![w] = Head(work[w]) ]
            /\ work' = [ work EXCEPT ![w] = Tail(@) ]
            /\ pc' = [ pc EXCEPT ![w] = IF mode = "outside" /\ ~(Head(work[w]) < best) THEN "search" ELSE "enter" ]
    /\ UNCHANGED << mode, all, owner, best, who >>

Enter(w) ==
    /\ pc[w] = "enter" /\ owner = 0
    /\ owner' = w
    /\ pc' = [ pc EXCEPT ![w] = "locked" ]
    /\ UNCHANGED << mode, work, all, found, best, who >>

Leave(w) ==
    /\ pc[w] = "locked"
    /\ IF mode = "lock" => found[w] < best
       THEN best' = found[w] /\ who' = w
       ELSE UNCHANGED << best, who >>
    /\ owner' = 0
    /\ pc' = [ pc EXCEPT ![w] = "search" ]
    /\ UNCHANGED << mode, work, all, found >>

Next == \E w \in Workers : Search(w) \/ Enter(w) \/ Leave(w)
Fairness == \A w \in Workers : WF_vars(Search(w)) /\ SF_vars(Enter(w)) /\ WF_vars(Leave(w))
Spec == Init /\ [][Next]_vars /\ Fairness

Done == \A w \in Workers : pc[w] = "done"

Exclusion == Cardinality({ w \in Workers : pc[w] = "locked" }) <= 1
NeverWorse == [][best' <= best]_best
BestOfAll == Done => best = (IF all = {} THEN Inf ELSE Min(all))
Terminates == <>Done
=============================================================================
