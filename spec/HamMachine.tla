----------------------------- MODULE HamMachine ----------------------------
(***************************************************************************)
(* The Hamiltonian cycle test counts how often each city occurs: all once, *)
(* except for one that occurs twice. For a closed sequence that accepts    *)
(* exactly the closed tours.                                               *)
(*   "count"   as walky does it                                            *)
(*   "twice"   allows any number of cities that occur twice (has to fail)  *)
(*   "open"    also applied to sequences that are not closed (has to fail) *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS Sizes, MaxLen, Variants

VARIABLES variant, n, p, at, used, res
vars == << variant, n, p, at, used, res >>

Init == /\ variant \in Variants /\ n \in Sizes
        /\ p = << >> /\ at = 0 /\ used = [ v \in 0 .. (n - 1) |-> 0 ] /\ res = "running"

\* the sequence is chosen while it is read
Read == /\ res = "running" /\ Len(p) < MaxLen
        /\ \E v \in 0 .. n : /\ p' = Append(p, v)
                             /\ IF v >= n THEN res' = "no" /\ UNCHANGED used
                                ELSE used' = [ used EXCEPT ![v] = @ + 1 ] /\ UNCHANGED res
        /\ UNCHANGED << variant, n, at >>
Closed == Len(p) >= 2 /\ p[1] = p[Len(p)]
Decide == /\ res = "running" /\ (variant = "open" \/ Closed)
          /\ res' = LET twice == { v \in Cities(n) : used[v] = 2 }
                    IN IF (\A v \in Cities(n) : used[v] \in {1, 2}) /\ (variant = "twice" \/ Cardinality(twice) <= 1) THEN "yes" ELSE "no"
          /\ UNCHANGED << variant, n, p, at, used >>
Next == Read \/ Decide
Spec == Init /\ [][Next]_vars

IsClosedTour == Len(p) = n + 1 /\ p[1] = p[Len(p)] /\ IsTour(SubSeq(p, 1, n), n)
Exactly == /\ res = "yes" => IsClosedTour
           /\ res = "no" => ~IsClosedTour
=============================================================================
