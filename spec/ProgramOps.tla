----------------------------- MODULE ProgramOps ----------------------------
(***************************************************************************)
(* What the command line program is asked for and what it has to print.    *)
(*                                                                         *)
(* A command is [ sub, alg, par, lb ]: subcommand, algorithm, parallelism, *)
(* and the lower bound that an approximation may be combined with.         *)
(* Printed are results [ w |-> what, ... ]: "cost" and "tour" of an exact  *)
(* algorithm, "chris" (cost), "nn" (cost) and "nntour", "onetree", "mst".  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ExactAlgs == { "v0", "v1", "v2", "v3", "v4", "v5", "v6" }
ApproxAlgs == { "nearest-neighbour", "christofides" }
BoundAlgs == { "one-tree", "mst", "mst-queue" }
Pars == { "default", "single-threaded", "multi-threaded", "mpi" }

Commands ==
    [ sub : { "exact" }, alg : ExactAlgs, par : Pars, lb : { "none" } ]
    \cup [ sub : { "approx" }, alg : ApproxAlgs, par : Pars, lb : BoundAlgs \cup { "none" } ]
    \cup [ sub : { "lower-bound" }, alg : BoundAlgs, par : Pars, lb : { "none" } ]

\* over message passing there are two exact algorithms: static (v0) and dynamic (v1)
Offered(cmd) == cmd.par = "mpi" /\ cmd.sub = "exact" => cmd.alg \in { "v0", "v1" }

BoundResult(alg) == IF alg = "one-tree" THEN "onetree" ELSE "mst"

\* what has to be printed, by the main process
Required(cmd) ==
    CASE cmd.sub = "exact" -> { "cost", "tour" }
      [] cmd.sub = "approx" -> { IF cmd.alg = "christofides" THEN "chris" ELSE "nn" }
                               \cup (IF cmd.lb = "none" THEN {} ELSE { BoundResult(cmd.lb) })
      [] cmd.sub = "lower-bound" -> { BoundResult(cmd.alg) }

\* what may be printed, by any process
Allowed(cmd) == Required(cmd) \cup (IF cmd.sub = "approx" /\ cmd.alg = "nearest-neighbour" THEN { "nntour" } ELSE {})
=============================================================================
