---------------------------- MODULE MpiMatching ----------------------------
(***************************************************************************)
(* The matching over K processes. The root broadcasts number of tries,     *)
(* size of the matching, number of cities, matching and matrix (five       *)
(* broadcasts). Then every process rearranges its own copy at random,      *)
(* never making it worse. Every other process sends cost (tag 0) and       *)
(* matching (tag 1) to the root, which receives them process by process,   *)
(* keeps the best, and broadcasts its cost and then the matching.          *)
(*                                                                         *)
(* A matching is abstracted to its cost. Mode "walky", and designs that    *)
(* have to fail: "anysource" (cost and matching are received from any      *)
(* process), "untagged" (the two have no tags and are sent in any order),  *)
(* "local" (the processes do not take over the broadcast matching), "last" *)
(* (the root keeps the last one).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS MaxK, Vals, Modes

VARIABLES mode, sync, K,
    pc,
    m,        \* m[r]: the matching of process r
    casts,    \* what the root has broadcast so far, one after the other
    nth,      \* nth[r]: how many of the broadcasts process r has taken part in
    chan,     \* chan[r]: messages from r to the root, << tag, cost >>
    next,     \* the process from which the root receives next
    cost,     \* the cost the root has received, not yet with the matching
    best, bestm,
    found,    \* found[r]: the cost each process found
    start
vars == << mode, sync, K, pc, m, casts, nth, chan, next, cost, best, bestm, found, start >>

Ranks == 0 .. (K - 1)
Boot == 5

Init ==
    /\ mode \in Modes /\ sync \in BOOLEAN /\ K \in 1 .. MaxK
    /\ start \in Vals
    /\ m = [ r \in Ranks |-> IF r = 0 THEN start ELSE 0 ]
    /\ pc = [ r \in Ranks |-> "boot" ]
    /\ casts = << >>
    /\ nth = [ r \in Ranks |-> 0 ]
    /\ chan = [ r \in Ranks |-> << >> ]
    /\ next = 1 /\ cost = -1 /\ best = -1 /\ bestm = -1
    /\ found = [ r \in Ranks |-> -1 ]

\* the root broadcasts number i
RootCast ==
    /\ pc[0] = "boot"
    /\ casts' = Append(casts, IF Len(casts) + 1 = 4 THEN m[0] ELSE Len(casts))
    /\ nth' = [ nth EXCEPT ![0] = @ + 1 ]
    /\ pc' = [ pc EXCEPT ![0] = IF Len(casts) + 1 = Boot THEN "improve" ELSE "boot" ]
    /\ UNCHANGED << mode, sync, K, m, chan, next, cost, best, bestm, found, start >>

TakeCast(r) ==
    /\ pc[r] = "boot" /\ r # 0 /\ nth[r] < Len(casts)
    /\ nth' = [ nth EXCEPT ![r] = @ + 1 ]
    /\ m' = [ m EXCEPT ![r] = IF nth[r] + 1 = 4 THEN casts[4] ELSE @ ]
    /\ pc' = [ pc EXCEPT ![r] = IF nth[r] + 1 = Boot THEN "improve" ELSE "boot" ]
    /\ UNCHANGED << mode, sync, K, casts, chan, next, cost, best, bestm, found, start >>

Improve(r) ==
    /\ pc[r] = "improve"
    /\ \E v \in { x \in Vals : x <= m[r] } :
        /\ m' = [ m EXCEPT ![r] = v ]
        /\ found' = [ found EXCEPT ![r] = v ]
        /\ IF r = 0 THEN best' = v /\ bestm' = v ELSE UNCHANGED << best, bestm >>
    /\ pc' = [ pc EXCEPT ![r] = IF r # 0 THEN "send0" ELSE IF K = 1 THEN "cast" ELSE "recv0" ]
    /\ UNCHANGED << mode, sync, K, casts, nth, chan, next, cost, start >>

\* the first and the second message
Send(r) ==
    /\ pc[r] \in { "send0", "send1" }
    /\ sync => chan[r] = << >>
    /\ LET first == pc[r] = "send0"
           tags == IF mode = "untagged" THEN { 0, 1 } ELSE { IF first THEN 0 ELSE 1 }
       IN \E t \in { u \in tags : \A i \in 1 .. Len(chan[r]) : chan[r][i][1] # u } :
             chan' = [ chan EXCEPT ![r] = Append(@, << t, m[r] + (IF t = 1 THEN 100 ELSE 0) >>) ]
    /\ pc' = [ pc EXCEPT ![r] = IF pc[r] = "send0" THEN "send1" ELSE "final0" ]
    /\ UNCHANGED << mode, sync, K, m, casts, nth, next, cost, best, bestm, found, start >>

\* the first message of r with the tag (any message, if there are no tags)
Pick(r, t) == IF mode = "untagged" THEN { i \in 1 .. Len(chan[r]) : i = 1 }
              ELSE { i \in 1 .. Len(chan[r]) : chan[r][i][1] = t /\ \A j \in 1 .. (i - 1) : chan[r][j][1] # t }
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Sources == IF mode = "anysource" THEN Ranks \ {0} ELSE { next }

Recv0 ==
    /\ pc[0] = "recv0"
    /\ \E r \in Sources : \E i \in Pick(r, 0) :
        /\ cost' = chan[r][i][2]
        /\ chan' = [ chan EXCEPT ![r] = Without(@, i) ]
    /\ pc' = [ pc EXCEPT ![0] = "recv1" ]
    /\ UNCHANGED << mode, sync, K, m, casts, nth, next, best, bestm, found, start >>

Recv1 ==
    /\ pc[0] = "recv1"
    /\ \E r \in Sources : \E i \in Pick(r, 1) :
        /\ chan' = [ chan EXCEPT ![r] = Without(@, i) ]
        /\ IF cost < best \/ mode = "last"
           THEN best' = cost /\ bestm' = chan[r][i][2] - 100
           ELSE UNCHANGED << best, bestm >>
    /\ next' = next + 1
    /\ pc' = [ pc EXCEPT ![0] = IF next + 1 = K THEN "cast" ELSE "recv0" ]
    /\ UNCHANGED << mode, sync, K, m, casts, nth, cost, found, start >>

FinalCast ==
    /\ pc[0] = "cast"
    /\ casts' = casts \o << best, bestm >>
    /\ m' = [ m EXCEPT ![0] = bestm ]
    /\ pc' = [ pc EXCEPT ![0] = "end" ]
    /\ UNCHANGED << mode, sync, K, nth, chan, next, cost, best, bestm, found, start >>

Final(r) ==
    /\ pc[r] = "final0" /\ Len(casts) = Boot + 2
    /\ m' = [ m EXCEPT ![r] = IF mode = "local" THEN @ ELSE casts[Boot + 2] ]
    /\ pc' = [ pc EXCEPT ![r] = "end" ]
    /\ UNCHANGED << mode, sync, K, casts, nth, chan, next, cost, best, bestm, found, start >>

AllDone == \A r \in Ranks : pc[r] = "end"
Next == RootCast \/ Recv0 \/ Recv1 \/ FinalCast
        \/ (\E r \in Ranks : TakeCast(r) \/ Improve(r) \/ Send(r) \/ Final(r))
        \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* all hold the same matching, which is the best that anyone found
Agree == AllDone => \A r \in Ranks : m[r] = Min({ found[s] : s \in Ranks })
NotWorse == AllDone => \A r \in Ranks : m[r] <= start
Clean == AllDone => \A r \in Ranks : chan[r] = << >>
Terminates == <>AllDone
=============================================================================
