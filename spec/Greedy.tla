------------------------------- MODULE Greedy ------------------------------
(***************************************************************************)
(* Nearest neighbour: from a start city always on to a nearest unvisited   *)
(* one (any of them, if there are several); the best tour over the starts  *)
(* that are tried, which are distinct. The starts may be finished in any   *)
(* order (threads), the reduction keeps the cheaper tour.                  *)
(*   "all"      K distinct starts                                          *)
(*   "open"     forgets the way back in the cost (has to fail)             *)
(*   "repeat"   may try the same start twice (has to fail)                 *)
(***************************************************************************)
EXTENDS TSP
CONSTANTS MaxN, W, Variants

VARIABLES variant, c, k, tried, path, cost, best, bpath, log, done
vars == << variant, c, k, tried, path, cost, best, bpath, log, done >>

n == Len(c)

Init ==
    /\ variant \in Variants
    /\ \E m \in 2 .. MaxN : c \in Instances(m, W)
    /\ k \in 1 .. n
    /\ tried = << >> /\ path = << >> /\ cost = 0
    /\ best = Inf /\ bpath = << >> /\ log = {} /\ done = FALSE

Begin ==
    /\ ~done /\ path = << >> /\ Len(tried) < k
    /\ \E s \in Cities(n) :
            /\ variant # "repeat" => s \notin RangeOf(tried)
            /\ path' = << s >> /\ tried' = Append(tried, s)
    /\ cost' = 0
    /\ UNCHANGED << variant, c, k, best, bpath, log, done >>

Step ==
    /\ path # << >> /\ Len(path) < n
    /\ LET out == Cities(n) \ RangeOf(path)
           last == path[Len(path)]
       IN \E v \in out :
            /\ \A u \in out : C(c, last, v) <= C(c, last, u)
            /\ path' = Append(path, v)
            /\ cost' = cost + C(c, last, v)
    /\ UNCHANGED << variant, c, k, tried, best, bpath, log, done >>

Close ==
    /\ Len(path) = n
    /\ LET total == cost + (IF variant = "open" THEN 0 ELSE C(c, path[n], path[1]))
       IN /\ log' = log \cup { << path[1], total >> }
          /\ IF total < best THEN best' = total /\ bpath' = path ELSE UNCHANGED << best, bpath >>
    /\ path' = << >>
    /\ UNCHANGED << variant, c, k, tried, cost, done >>

Finish ==
    /\ ~done /\ path = << >> /\ Len(tried) = k
    /\ done' = TRUE
    /\ UNCHANGED << variant, c, k, tried, path, cost, best, bpath, log >>

Next == Begin \/ Step \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

\* the set of costs a greedy tour from s can have, depending on how ties are broken
RECURSIVE GreedyFrom(_, _)
GreedyFrom(p, w) ==
    IF Len(p) = n THEN { w + C(c, p[n], p[1]) }
    ELSE LET out == Cities(n) \ RangeOf(p)
             last == p[Len(p)]
             m == Min({ C(c, last, u) : u \in out })
         IN UNION { GreedyFrom(Append(p, v), w + m) : v \in { u \in out : C(c, last, u) = m } }
GreedyCosts(s) == GreedyFrom(<< s >>, 0)

Right == done =>
    /\ IsGreedy(c, n, bpath)
    /\ best = CircleCost(c, bpath)
    /\ best >= Opt(c, n)
    \* it is the best of k different starts, for some way to break ties
    /\ Cardinality({ s \in Cities(n) : \E w \in GreedyCosts(s) : w >= best }) >= k
    /\ best \in GreedyCosts(bpath[1])
BestOfLog == done => Cardinality({ e[1] : e \in log }) = k
\* for metric instances never worse than (ceil(log2 n) + 1) / 2 times the optimum
Rosenkrantz == (done /\ IsMetric(c, n)) => 2 * best <= (CeilLog2(n) + 1) * Opt(c, n)
=============================================================================
