------------------------------ MODULE MC_Address ------------------------------
(***************************************************************************)
(* Addressing and the address space.                                       *)
(* The addressing of a discriminator without indexes and mapping, built    *)
(* step by step the way the library does it - a permutation of the         *)
(* positions, cut into groups, a last group filled up - is compared with   *)
(* the declarative ValidShuffle (C02): every addressing built satisfies    *)
(* it, and the number of addressings built shows that none is missing.     *)
(* Words: distinct patterns have distinct addresses, the first position is *)
(* the least significant (C03).                                            *)
(***************************************************************************)
EXTENDS Discriminators, TLC, FiniteSetsExt, SequencesExt

CONSTANTS MaxN, MaxBase, MaxLen

VARIABLES n, a, complete, perm, fill
v == << n, a, complete, perm, fill >>

Rams == NumberOfRams(n, a, complete)
Slots == Rams * a
Fillers == IF Slots > n THEN Slots - n ELSE 0

Init == /\ n \in 2..MaxN /\ a \in 2..MaxN /\ a <= n /\ complete \in BOOLEAN
        /\ perm = <<>> /\ fill = <<>>
\* draw the next position without repetition
Draw == /\ Len(perm) < n
        /\ \E p \in 0..(n-1) : p \notin RangeOf(perm) /\ perm' = Append(perm, p)
        /\ UNCHANGED << n, a, complete, fill >>
\* fill the last group up with any positions
Fill == /\ Len(perm) = n /\ Len(fill) < Fillers
        /\ \E p \in 0..(n-1) : fill' = Append(fill, p)
        /\ UNCHANGED << n, a, complete, perm >>
Next == Draw \/ Fill
Spec == Init /\ [][Next]_v

Done == Len(perm) = n /\ Len(fill) = Fillers
Cut == LET flat == perm \o fill IN [ r \in 1..Rams |-> SubSeq(flat, (r-1)*a + 1, r*a) ]

BuiltIsValid == Done => ValidShuffle(Cut, n, a, complete)
\* C02, in its own words
AsStated ==
  Done => LET m == Cut
              flat == ConcatAll(m)
              Uses(p) == Cardinality({ i \in 1..Len(flat) : flat[i] = p })
          IN /\ Len(m) = (n \div a) + (IF complete /\ n % a > 0 THEN 1 ELSE 0)
             /\ \A r \in 1..Len(m) : Len(m[r]) = a
             /\ ~ (complete /\ n % a > 0) => \A p \in 0..(n-1) : Uses(p) <= 1
             /\ complete /\ n % a > 0 => /\ \A p \in 0..(n-1) : Uses(p) >= 1
                                         /\ Len(flat) - n = a - (n % a)
\* a valid addressing is valid only for its own parameters
Tight == Done /\ Rams > 0 => /\ ~ ValidShuffle(Tail(Cut), n, a, complete)
                             /\ ~ ValidShuffle(Append(Cut, Cut[1]), n, a, complete)
                             /\ ~ ValidShuffle([ Cut EXCEPT ![1][1] = n ], n, a, complete)

------------------------------------------------------------------------------
Patterns(b, k) == [ 1..k -> 0..(b-1) ]
RECURSIVE Value(_, _, _)
Value(d, b, i) == IF i > Len(d) THEN 0 ELSE d[i] + b * Value(d, b, i+1)

ASSUME WordsInjective ==
  \A b \in 2..MaxBase : \A k \in 0..MaxLen :
    Cardinality({ Word64(d, b) : d \in Patterns(b, k) }) = Cardinality(Patterns(b, k))
ASSUME WordsAreNumbers ==
  \A b \in 2..MaxBase : \A k \in 0..MaxLen : \A d \in Patterns(b, k) :
    Word64(d, b) = << Value(d, b, 1) % 65536, Value(d, b, 1) \div 65536, 0, 0 >>
ASSUME WordsAreWide ==
  /\ Word64([ i \in 1..64 |-> 1 ], 2) = << 65535, 65535, 65535, 65535 >>
  /\ Word64([ i \in 1..64 |-> IF i = 64 THEN 1 ELSE 0 ], 2) = << 0, 0, 0, 32768 >>
  /\ Word64([ i \in 1..8 |-> 255 ], 256) = << 65535, 65535, 65535, 65535 >>

\* the largest address size for a base
Limits == << <<2, 64>>, <<3, 40>>, <<4, 32>>, <<5, 27>>, <<6, 24>>, <<7, 22>>, <<8, 21>>, <<9, 20>>, <<10, 19>>, <<16, 16>>,
             <<255, 8>>, <<256, 8>>, <<257, 7>>, <<65535, 4>>, <<65536, 4>>, <<65537, 3>>, <<1048576, 3>>, <<1073741824, 2>> >>
ASSUME LimitExact ==
  \A i \in 1..Len(Limits) : /\ ~ ExceedsWord(Limits[i][1], Limits[i][2])
                            /\ ExceedsWord(Limits[i][1], Limits[i][2] + 1)
=============================================================================
