------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* Runs of the command line program, on one process or on K processes over *)
(* message passing. Every process goes through a plan of steps: read the   *)
(* file, bring MPI up once, compute (some computations need all processes  *)
(* at once), print. A file that cannot be read, parsed or accepted ends    *)
(* the process with a failure.                                             *)
(*                                                                         *)
(* Mode: "walky", and designs that have to fail: "leave" (a helper of the  *)
(* matching is done afterwards, also if a lower bound was asked for),      *)
(* "twice" (MPI is brought up and taken down by every computation),        *)
(* "early" (the heading of the result is printed before the file has been  *)
(* accepted), "swallow" (an invalid file ends the program with success),   *)
(* "either" (the lower bound replaces the approximation), "careless" (a    *)
(* lower bound that cannot be computed is left out).                       *)
(* A file may change: what is read first is valid, what is read then isn't.*)
(***************************************************************************)
EXTENDS ProgramOps, Json, TLC
CONSTANTS MaxK, Modes, Emit

Files == { "valid", "missing", "malformed", "invalid", "changing" }

VARIABLES mode, cmd, file, K, todo, mpi, out, status, reads
vars == << mode, cmd, file, K, todo, mpi, out, status, reads >>

Ranks == 0 .. (K - 1)

S(s, x) == << s, x >>

\* the steps of one computation on rank r, and of the lower bound
Collective(what) == IF cmd.par = "mpi" THEN << S("all", what) >> ELSE << S("alone", what) >>
Up == IF cmd.par # "mpi" THEN << >> ELSE << S("up", "") >>
Down == IF cmd.par # "mpi" THEN << >> ELSE << S("down", "") >>
Inner(s) == IF mode = "twice" /\ cmd.par = "mpi" THEN Up \o s \o Down ELSE s

BoundPlan(alg, r) ==
    << S("read", "") >> \o
    (IF alg = "one-tree"
     THEN Inner(Collective("onetree")) \o (IF r = 0 THEN << S("print", "onetree") >> ELSE << >>)
     ELSE << S("alone", "mst"), S("print", "mst") >>)

Plan(r) ==
    LET first == IF mode = "early" THEN << S("print", CHOOSE x \in Required(cmd) : TRUE) >> ELSE << >>
        body ==
          CASE cmd.sub = "exact" ->
                 << S("read", "") >> \o (IF Offered(cmd) THEN Inner(Collective("exact")) \o << S("print", "cost"), S("print", "tour") >>
                                         ELSE << S("fail", "") >>)
            [] cmd.sub = "approx" ->
                 << S("read", "") >>
                 \o (IF cmd.alg = "christofides"
                     THEN Inner(Collective("matching")) \o (IF r = 0 THEN << S("print", "chris") >> ELSE << >>)
                     ELSE Inner(Collective("nn")) \o << S("print", "nn"), S("print", "nntour") >>)
                 \o (IF cmd.lb = "none" \/ (mode = "leave" /\ cmd.alg = "christofides" /\ r # 0) THEN << >> ELSE BoundPlan(cmd.lb, r))
            [] cmd.sub = "lower-bound" -> BoundPlan(cmd.alg, r)
        all == first \o body
    IN IF mode = "twice" THEN all
       ELSE Up \o (IF mode = "either" /\ cmd.lb # "none" THEN BoundPlan(cmd.lb, r) ELSE all) \o Down

Init ==
    /\ mode \in Modes
    /\ cmd \in Commands
    /\ file \in Files
    /\ K \in (IF cmd.par = "mpi" THEN 1 .. MaxK ELSE { 1 })
    /\ todo = [ r \in Ranks |-> Plan(r) ]
    /\ mpi = [ r \in Ranks |-> "fresh" ]
    /\ out = [ r \in Ranks |-> {} ]
    /\ status = [ r \in Ranks |-> "running" ]
    /\ reads = [ r \in Ranks |-> 0 ]
    /\ Emit => PrintT("RUN " \o ToJson(cmd))

Step(r) ==
    /\ status[r] = "running"
    /\ todo[r] # << >>
    /\ LET h == Head(todo[r]) t == Tail(todo[r]) IN
       CASE h[1] = "read" ->
              /\ reads' = [ reads EXCEPT ![r] = @ + 1 ]
              /\ IF file = "valid" \/ (file = "changing" /\ reads[r] = 0)
                 THEN todo' = [ todo EXCEPT ![r] = t ] /\ UNCHANGED << status, out, mpi >>
                 ELSE status' = [ status EXCEPT ![r] = IF mode = "swallow" \/ (mode = "careless" /\ reads[r] > 0) THEN "ok" ELSE "failed" ]
                      /\ UNCHANGED << todo, out, mpi >>
         [] h[1] = "fail" -> status' = [ status EXCEPT ![r] = "failed" ] /\ UNCHANGED << todo, out, mpi >>
         [] h[1] = "up" ->
              \* MPI cannot be brought up again once it has been taken down
              IF mpi[r] = "fresh" THEN mpi' = [ mpi EXCEPT ![r] = "up" ] /\ todo' = [ todo EXCEPT ![r] = t ] /\ UNCHANGED << status, out >>
              ELSE status' = [ status EXCEPT ![r] = "failed" ] /\ UNCHANGED << todo, out, mpi >>
         [] h[1] = "down" -> mpi' = [ mpi EXCEPT ![r] = "down" ] /\ todo' = [ todo EXCEPT ![r] = t ] /\ UNCHANGED << status, out >>
         [] h[1] = "alone" -> todo' = [ todo EXCEPT ![r] = t ] /\ UNCHANGED << status, out, mpi >>
         [] h[1] = "print" -> out' = [ out EXCEPT ![r] = @ \cup { h[2] } ] /\ todo' = [ todo EXCEPT ![r] = t ] /\ UNCHANGED << status, mpi >>
         [] h[1] = "all" -> FALSE
    /\ (Head(todo[r])[1] # "read" => UNCHANGED reads)
    /\ UNCHANGED << mode, cmd, file, K >>

\* a computation of all processes at once
Together ==
    /\ \E what \in { "exact", "matching", "nn", "onetree" } :
            \A r \in Ranks : status[r] = "running" /\ todo[r] # << >> /\ Head(todo[r]) = S("all", what) /\ mpi[r] = "up"
    /\ todo' = [ r \in Ranks |-> Tail(todo[r]) ]
    /\ UNCHANGED << mode, cmd, file, K, mpi, out, status, reads >>

Finish(r) ==
    /\ status[r] = "running" /\ todo[r] = << >>
    /\ status' = [ status EXCEPT ![r] = "ok" ]
    /\ UNCHANGED << mode, cmd, file, K, todo, mpi, out, reads >>

Ended == \A r \in Ranks : status[r] # "running"
Next == (\E r \in Ranks : Step(r) \/ Finish(r)) \/ Together \/ (Ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* only lists the commands
Stop == FALSE /\ UNCHANGED vars

Answers == Ended /\ file = "valid" /\ Offered(cmd) =>
    /\ \A r \in Ranks : status[r] = "ok" /\ out[r] \subseteq Allowed(cmd)
    /\ Required(cmd) \subseteq out[0]
\* no result, at no time
Refuses == file \notin { "valid", "changing" } =>
    /\ \A r \in Ranks : out[r] = {} /\ status[r] # "ok"
\* success means that everything has been printed
Honest == status[0] = "ok" => Required(cmd) \subseteq out[0]
Terminates == <>Ended
=============================================================================
