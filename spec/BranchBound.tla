---------------------------- MODULE BranchBound ----------------------------
(***************************************************************************)
(* The sequential exact solvers as machines.                               *)
(*                                                                         *)
(*   v0, v1      enumeration of permutations with next_permutation         *)
(*   v2 .. v6    depth first search over prefixes of tours, where a child  *)
(*               is entered only if its cost plus a lower bound for the    *)
(*               rest does not exceed the best tour found so far           *)
(*                                                                         *)
(* Also machines with realistic mistakes (the kinds in `Broken`): checking *)
(* them has to fail, which shows that the properties here are not vacuous. *)
(***************************************************************************)
EXTENDS TSP, Enumerate
CONSTANTS MaxN, W, Kinds

VARIABLES
    kind,       \* which solver
    c,          \* the instance
    prefix,     \* current prefix (v2..v6), current permutation (v0, v1)
    cost,       \* cost of the prefix
    next,       \* next[k]: next candidate for position k
    best, path, \* best tour so far
    cache,      \* v6: key of a prefix -> lower bound
    pruned,     \* the child that was cut off in the last step, << >> if none
    done

vars == << kind, c, prefix, cost, next, best, path, cache, pruned, done >>

n == Len(c)
Perm == {"v0", "v1", "v1skip"}
Search == {"v2", "v3", "v4", "v5", "v6", "v3strict", "v4full", "v5directed", "v6length", "v5path"}

(*----------------- lower bounds for the cities outside of q, doubled ------------*)

Rest(q) == Cities(n) \ RangeOf(q)

\* every remaining city pays half of its cheapest edge to another remaining city
HalfNearest2(q) ==
    LET R == Rest(q)
    IN IF Cardinality(R) < 2 THEN 0
       ELSE FoldSet(LAMBDA i, s : s + Min({ C(c, i, j) : j \in R \ {i} }), 0, R)

Tree2(q) == 2 * MSTWeight(c, Rest(q))

\* what a cache entry of v6 is found under
Key(q) == IF kind = "v6length" THEN Len(q) ELSE q

Bound2(q) ==
    CASE kind \in {"v2", "v3", "v3strict"} -> 0
      [] kind = "v4" -> HalfNearest2(q)
      [] kind = "v4full" -> 2 * HalfNearest2(q)
      [] kind = "v5" -> Tree2(q)
      [] kind = "v5directed" -> 2 * Tree2(q)
      [] kind = "v5path" -> 2 * MSTWeight(c, Rest(q) \cup {q[Len(q)]})
      [] kind \in {"v6", "v6length"} ->
            IF Key(q) \in DOMAIN cache THEN cache[Key(q)] ELSE Tree2(q)

Enter(q, k) ==
    \/ Len(q) = 1
    \/ kind = "v2"
    \/ kind = "v3strict" /\ k < best
    \/ kind # "v3strict" /\ 2 * k + Bound2(q) <= 2 * best

(*-------------------------------- machine -------------------------------*)

Init ==
    /\ kind \in Kinds
    /\ \E m \in 2 .. MaxN : c \in Instances(m, W)
    /\ prefix = IF kind \in Perm THEN [ i \in 1 .. n |-> i - 1 ] ELSE << >>
    /\ cost = 0
    /\ next = << 0 >>
    /\ path = IF kind \in {"v0", "v1"} THEN prefix ELSE << >>
    /\ best = IF kind \in {"v0", "v1"} THEN CircleCost(c, prefix) ELSE Inf
    /\ cache = << >>
    /\ pruned = << >>
    /\ done = FALSE

\* the next permutation: of all cities (v0), or of all but the first (v1)
PermStep ==
    /\ kind \in Perm /\ ~done
    /\ LET k == IF kind \in {"v1", "v1skip"} THEN 1 ELSE 0
           y == NextPerm(SubSeq(prefix, k + 1, n))
           p == SubSeq(prefix, 1, k) \o y
       IN IF y = << >>
          THEN done' = TRUE /\ UNCHANGED << prefix, best, path >>
          ELSE /\ prefix' = p
               /\ IF CircleCost(c, p) < best
                  THEN best' = CircleCost(c, p) /\ path' = p
                  ELSE UNCHANGED << best, path >>
               /\ UNCHANGED done
    /\ UNCHANGED << kind, c, cost, next, cache, pruned >>

\* back to the parent
Up == /\ prefix' = SubSeq(prefix, 1, Len(prefix) - 1)
      /\ next' = SubSeq(next, 1, Len(prefix))
      /\ cost' = IF Len(prefix) = 1 THEN 0
                 ELSE cost - C(c, prefix[Len(prefix) - 1], prefix[Len(prefix)])

Leaf ==
    /\ kind \in Search /\ ~done /\ Len(prefix) = n
    /\ LET k == cost + C(c, prefix[n], prefix[1])
       IN IF k < best THEN best' = k /\ path' = prefix ELSE UNCHANGED << best, path >>
    /\ Up
    /\ pruned' = << >>
    /\ UNCHANGED << kind, c, cache, done >>

Candidates == { i \in Cities(n) : i >= next[Len(prefix) + 1] /\ i \notin RangeOf(prefix) }

Descend ==
    /\ kind \in Search /\ ~done /\ Len(prefix) < n /\ Candidates # {}
    /\ LET i == Min(Candidates)
           q == Append(prefix, i)
           k == IF Len(q) = 1 THEN 0 ELSE cost + C(c, prefix[Len(prefix)], i)
           after == [ next EXCEPT ![Len(prefix) + 1] = i + 1 ]
       IN /\ IF Enter(q, k)
             THEN prefix' = q /\ cost' = k /\ next' = Append(after, 0) /\ pruned' = << >>
             ELSE UNCHANGED << prefix, cost >> /\ next' = after /\ pruned' = q
          /\ cache' = IF kind \in {"v6", "v6length"} /\ Len(q) > 1 /\ Key(q) \notin DOMAIN cache
                      THEN (Key(q) :> Tree2(q)) @@ cache ELSE cache
    /\ UNCHANGED << kind, c, best, path, done >>

Return ==
    /\ kind \in Search /\ ~done /\ Len(prefix) < n /\ Candidates = {}
    /\ IF prefix = << >> THEN done' = TRUE /\ UNCHANGED << prefix, cost, next >>
       ELSE Up /\ UNCHANGED done
    /\ pruned' = << >>
    /\ UNCHANGED << kind, c, best, path, cache >>

Next == PermStep \/ Leaf \/ Descend \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------ properties ------------------------------*)

BestIsATour == best < Inf => IsTour(path, n) /\ best = CircleCost(c, path)
CostIsPathCost == kind \in Search => cost = PathCost(c, prefix)
Optimal == done => best < Inf /\ IsTour(path, n) /\ best = Opt(c, n)

\* nothing that is strictly better than the best tour is ever cut off
PruneIsAdmissible == pruned # << >> => BestCompletion(c, n, pruned) >= best

BestNeverRises == [][best' <= best]_best
Terminates == <>done
=============================================================================
