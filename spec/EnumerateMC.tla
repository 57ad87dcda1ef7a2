---------------------------- MODULE EnumerateMC ----------------------------
(* The enumeration primitives as machines, against their meaning.          *)
EXTENDS Enumerate
CONSTANTS MaxLen, MaxVal, MaxBase, MaxWidth

VARIABLES what, x, first, steps, b

vars == << what, x, first, steps, b >>

Sorted(a) == \A i \in 1 .. (Len(a) - 1) : a[i] <= a[i + 1]

Init ==
    \/ /\ what = "perm"
       /\ \E len \in 1 .. MaxLen : x \in [ 1 .. len -> 0 .. MaxVal ]
       /\ b = 0 /\ first = x /\ steps = 0
    \/ /\ what = "digits"
       /\ b \in 1 .. MaxBase
       /\ \E w \in 1 .. MaxWidth : x = [ i \in 1 .. w |-> 0 ]
       /\ first = x /\ steps = 0
    \/ /\ what = "chunks"
       /\ b \in 2 .. MaxBase
       /\ \E w \in 1 .. MaxWidth : \E num \in 1 .. (b^w - 1) : x = << w, num >>
       /\ first = x /\ steps = 0
    \/ /\ what = "cover"                    \* b cities, prefixes of length 3
       /\ b \in 4 .. MaxBase + 1
       /\ x \in { t \in [ 1 .. b -> 0 .. (b - 1) ] : NoRepeat(t) /\ t[1] = 0 }
       /\ first = x /\ steps = 0

Step ==
    LET y == IF what = "perm" THEN NextPerm(x) ELSE NextDigits(x, b)
    IN y # << >> /\ x' = y /\ steps' = steps + 1

Next ==
    /\ what \in {"perm", "digits"}
    /\ Step
    /\ UNCHANGED << what, first, b >>

Spec == Init /\ [][Next]_vars

\* every step goes to the next value
NextIsMeant ==
    /\ what = "perm" => NextPerm(x) = NextPermMeant(x)
    /\ what = "digits" => NextDigits(x, b) = NextDigitsMeant(x, b)

\* after `steps` steps from `first`, as many values have been visited as there are
CountIsRight ==
    /\ (what = "perm" /\ NextPerm(x) = << >>) => steps + 1 = CountFrom(first)
    /\ (what = "digits" /\ NextDigits(x, b) = << >>) => steps + 1 = b^Len(x)
    /\ what = "perm" => CountFrom(x) = Cardinality({ r \in Rearrangements(x) : ~LexLess(r, x) })
    /\ (what = "perm" /\ Sorted(x)) => CountFrom(x) = CountArr(x)

\* some of the chunks, as they are observed
Some(cs, K) ==
    LET ks == SetToSortSeq(K, <)
    IN [ i \in 1 .. Len(ks) |-> [ lo |-> cs[ks[i]][1], hi |-> cs[ks[i]][2], first |-> ks[i] = 1, last |-> ks[i] = Len(cs),
                                 next |-> i > 1 /\ ks[i - 1] + 1 = ks[i] ] ]

ChunksTile == what = "chunks" =>
    LET cs == Chunks(x[1], b, x[2])
    IN /\ Tiles(cs, b, x[1]) /\ TilesMeant(cs, b, x[1])
       /\ \A K \in { DOMAIN cs, { k \in DOMAIN cs : k % 3 # 1 }, { k \in DOMAIN cs : k % 4 < 2 } } : TilesAt(Some(cs, K), b, x[1])

\* chunks that are moved by one do not tile, by digits as little as by value
ShiftedDoNot == what = "chunks" =>
    LET cs == Chunks(x[1], b, x[2])
    IN \A k \in { i \in DOMAIN cs : i < 4 \/ i > Len(cs) - 3 \/ i = Len(cs) \div 2 } : \A s \in 1 .. 2 : Len(cs) < 60 =>
          LET d == NextDigits(cs[k][s], b)
              bad == [ cs EXCEPT ![k][s] = d ]
          IN d # << >> => /\ ~Tiles(bad, b, x[1]) /\ ~TilesMeant(bad, b, x[1])
                          /\ ~TilesAt(Some(bad, DOMAIN cs), b, x[1])

\* the work of the dynamic distribution, prefixes from 1 2 3 on, suffices for every tour
FromOneTwoThree ==
    what = "cover" => Covers({ p \in [ 1 .. 3 -> 0 .. (b - 1) ] : NoRepeat(p) /\ ~LexLess(p, <<1, 2, 3>>) }, x, 3)

\* and so would any start whose first digit is not above the largest city with a larger neighbourhood;
\* but not every start: from (b-1) 0 ... on, tours in which b-1 is followed by larger cities only ...
NotFromAnywhere ==
    what = "cover" => Covers({ p \in [ 1 .. 3 -> 0 .. (b - 1) ] : NoRepeat(p) /\ ~LexLess(p, << b - 1, b - 2, b - 3 >>) }, x, 3)
=============================================================================
