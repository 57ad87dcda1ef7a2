--------------------------- MODULE OneTreeMachine --------------------------
(***************************************************************************)
(* The 1-tree bound: for every special vertex a scan for its two cheapest  *)
(* edges on top of a spanning tree of the others; the maximum is taken     *)
(* over the special vertices in any order (sequential, threads: any order  *)
(* of reduction; message passing: vertices i with i % size = rank).        *)
(*   "scan"     as in walky                                                *)
(*   "forget"   a new cheapest edge does not demote the old one: must fail *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS MaxN, W, Variants

VARIABLES variant, c, s, at, fst, snd, left, best, done
vars == << variant, c, s, at, fst, snd, left, best, done >>

n == Len(c)
None == [ to |-> -1, cost |-> Inf ]

Init ==
    /\ variant \in Variants
    /\ \E m \in 2 .. MaxN : c \in Instances(m, W)
    /\ left = Cities(n) /\ s = -1 /\ at = 0 /\ fst = None /\ snd = None
    /\ best = -1 /\ done = FALSE

Choose ==
    /\ ~done /\ s = -1 /\ left # {}
    /\ \E x \in left : s' = x /\ left' = left \ {x}
    /\ at' = 0 /\ fst' = None /\ snd' = None
    /\ UNCHANGED << variant, c, best, done >>

Scan ==
    /\ s # -1 /\ at < n
    /\ at' = at + 1
    /\ LET e == [ to |-> at, cost |-> C(c, s, at) ]
       IN IF at = s THEN UNCHANGED << fst, snd >>
          ELSE IF e.cost < fst.cost THEN fst' = e /\ snd' = IF variant = "forget" THEN snd ELSE fst
          ELSE IF e.cost < snd.cost THEN snd' = e /\ UNCHANGED fst
          ELSE UNCHANGED << fst, snd >>
    /\ UNCHANGED << variant, c, s, left, best, done >>

Sum ==
    /\ s # -1 /\ at = n
    /\ LET second == IF n = 2 THEN fst ELSE snd
           w == MSTWeight(c, Cities(n) \ {s}) + fst.cost + second.cost
       IN best' = IF w > best THEN w ELSE best
    /\ s' = -1 /\ at' = 0
    /\ UNCHANGED << variant, c, fst, snd, left, done >>

Finish ==
    /\ ~done /\ s = -1 /\ left = {}
    /\ done' = TRUE
    /\ UNCHANGED << variant, c, s, at, fst, snd, left, best >>

Next == Choose \/ Scan \/ Sum \/ Finish
Spec == Init /\ [][Next]_vars

TwoEdges == (s # -1 /\ at = n) =>
    /\ fst.to # s /\ (n > 2 => snd.to # s /\ snd.to # fst.to)
    /\ fst.cost + (IF n = 2 THEN fst.cost ELSE snd.cost) = TwoCheapest(c, n, s)
IsBound == done => best = OneTreeBound(c, n) /\ best <= Opt(c, n)
NeverAbove == best <= Opt(c, n)
=============================================================================
