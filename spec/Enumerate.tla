----------------------------- MODULE Enumerate -----------------------------
(***************************************************************************)
(* Enumeration primitives of the exact solvers: successor of a permutation *)
(* (of a sequence that may repeat values), successor of a fixed-width      *)
(* number in base b (a prefix of a tour is such a number, base = number of *)
(* cities), and the division of that number space into chunks.             *)
(*                                                                         *)
(* Every notion is given twice: as it is meant (declaratively) and as it   *)
(* is computed (by position). EnumerateMC checks that they agree.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Functions, SequencesExt, TLC

(*----------------------------- permutations -----------------------------*)

\* a before b in lexicographic order (same length)
LexLess(a, b) ==
    \E k \in 1 .. Len(a) : a[k] < b[k] /\ \A i \in 1 .. (k - 1) : a[i] = b[i]

Occurs(a, x) == Cardinality({ i \in 1 .. Len(a) : a[i] = x })
IsRearrangement(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1 .. Len(a) : Occurs(a, a[i]) = Occurs(b, a[i])

\* all distinct rearrangements of a
Rearrangements(a) ==
    LET V == { a[i] : i \in 1 .. Len(a) }
    IN { b \in [ 1 .. Len(a) -> V ] : IsRearrangement(a, b) }

\* as it is meant: the least rearrangement that is greater, << >> if there is none
NextPermMeant(a) ==
    LET G == { b \in Rearrangements(a) : LexLess(a, b) }
    IN IF G = {} THEN << >> ELSE CHOOSE b \in G : \A x \in G : x = b \/ LexLess(b, x)

\* as it is computed: pivot, successor of the pivot, reversed suffix
NextPerm(a) ==
    LET P == { i \in 1 .. (Len(a) - 1) : a[i] < a[i + 1] }
    IN IF P = {} THEN << >>
       ELSE LET i == Max(P)
                j == Max({ k \in (i + 1) .. Len(a) : a[k] > a[i] })
                s == [ a EXCEPT ![i] = a[j], ![j] = a[i] ]
            IN SubSeq(s, 1, i) \o Reverse(SubSeq(s, i + 1, Len(s)))

\* number of distinct rearrangements
RECURSIVE Factorial(_)
Factorial(k) == IF k = 0 THEN 1 ELSE k * Factorial(k - 1)
RECURSIVE CountArr(_)
CountArr(a) ==
    LET V == { a[i] : i \in 1 .. Len(a) }
    IN Factorial(Len(a)) \div FoldSet(LAMBDA x, p : p * Factorial(Occurs(a, x)), 1, V)

\* number of distinct rearrangements that are not smaller than a (so a counts)
RECURSIVE CountFrom(_)
CountFrom(a) ==
    IF Len(a) <= 1 THEN 1
    ELSE LET V == { a[i] : i \in 1 .. Len(a) }
             RemoveOne(x) == LET k == Min({ i \in 1 .. Len(a) : a[i] = x })
                             IN SubSeq(a, 1, k - 1) \o SubSeq(a, k + 1, Len(a))
         IN CountFrom(Tail(a))
            + FoldSet(LAMBDA x, s : s + CountArr(RemoveOne(x)), 0, { x \in V : x > a[1] })

(*-------------------------- numbers in base b ---------------------------*)

\* value of the digits d (most significant first)
ValueOf(d, b) == FoldLeft(LAMBDA v, x : v * b + x, 0, d)

\* as it is meant
DigitsOf(v, b, w) == [ i \in 1 .. w |-> (v \div b^(w - i)) % b ]
NextDigitsMeant(d, b) ==
    LET v == ValueOf(d, b) + 1
    IN IF v = b^Len(d) THEN << >> ELSE DigitsOf(v, b, Len(d))

\* as it is computed: carry from the right, << >> on overflow
NextDigits(d, b) ==
    LET K == { i \in 1 .. Len(d) : d[i] < b - 1 }
    IN IF K = {} THEN << >>
       ELSE LET k == Max(K)
            IN [ i \in 1 .. Len(d) |-> IF i < k THEN d[i] ELSE IF i = k THEN d[i] + 1 ELSE 0 ]

(*-------------------------------- chunks --------------------------------*)

IsNumber(d, b, w) == Len(d) = w /\ \A i \in 1 .. w : d[i] \in 0 .. (b - 1)
LexLeq(x, y) == x = y \/ LexLess(x, y)
IsZero(d) == \A i \in 1 .. Len(d) : d[i] = 0

\* chunks, a sequence of <<lo, hi>> (digits, both inclusive), tile the space:
\* every value is in exactly one of them, in order. Only digits are looked at, since
\* the numbers may be too large to be computed with
Tiles(chunks, b, w) ==
    /\ Len(chunks) >= 1
    /\ \A k \in 1 .. Len(chunks) : \A s \in 1 .. 2 : IsNumber(chunks[k][s], b, w)
    /\ IsZero(chunks[1][1])
    /\ NextDigits(chunks[Len(chunks)][2], b) = << >>
    /\ \A k \in 1 .. Len(chunks) : LexLeq(chunks[k][1], chunks[k][2])
    /\ \A k \in 1 .. (Len(chunks) - 1) : chunks[k + 1][1] = NextDigits(chunks[k][2], b)

\* the same for some of the chunks, in order; x.next: the one before it is the previous chunk,
\* x.first and x.last: it is the first, the last of all
TilesAt(some, b, w) ==
    \A k \in 1 .. Len(some) : LET x == some[k] IN
        /\ IsNumber(x.lo, b, w) /\ IsNumber(x.hi, b, w) /\ LexLeq(x.lo, x.hi)
        /\ x.first <=> IsZero(x.lo)
        /\ x.last <=> (NextDigits(x.hi, b) = << >>)
        /\ k > 1 => IF x.next THEN x.lo = NextDigits(some[k - 1].hi, b) ELSE LexLess(some[k - 1].hi, x.lo)

\* by value
TilesMeant(chunks, b, w) ==
    /\ Len(chunks) >= 1
    /\ \A k \in 1 .. Len(chunks) : \A s \in 1 .. 2 :
            Len(chunks[k][s]) = w /\ \A i \in 1 .. w : chunks[k][s][i] \in 0 .. (b - 1)
    /\ ValueOf(chunks[1][1], b) = 0
    /\ ValueOf(chunks[Len(chunks)][2], b) = b^w - 1
    /\ \A k \in 1 .. Len(chunks) : ValueOf(chunks[k][1], b) <= ValueOf(chunks[k][2], b)
    /\ \A k \in 1 .. (Len(chunks) - 1) : ValueOf(chunks[k + 1][1], b) = ValueOf(chunks[k][2], b) + 1

\* the chunks of walky: equal sizes, the last one takes the remainder
Chunk(w, b, num, k) ==
    LET size == (b^w) \div num
        lo == k * size
        hi == IF k = num - 1 THEN b^w - 1 ELSE lo + size - 1
    IN << DigitsOf(lo, b, w), DigitsOf(hi, b, w) >>
Chunks(w, b, num) == [ k \in 1 .. num |-> Chunk(w, b, num, k - 1) ]

(*------------------------ prefixes that are tours -----------------------*)

NoRepeat(p) == \A i, j \in 1 .. Len(p) : i # j => p[i] # p[j]

\* the windows of length w of the closed tour t, in both directions
Windows(t, w) ==
    LET n == Len(t)
        at(i) == t[((i - 1) % n) + 1]
    IN { [ k \in 1 .. w |-> at(i + k - 1) ] : i \in 1 .. n }
       \cup { [ k \in 1 .. w |-> at(i + n - k + 1) ] : i \in 1 .. n }

\* the set S of prefixes suffices to find the tour t
Covers(S, t, w) == Windows(t, w) \cap S # {}
=============================================================================
