--------------------------- MODULE Discriminators ---------------------------
(***************************************************************************)
(* RAMs and discriminators: addressing, learning, votes, mental images.    *)
(*                                                                         *)
(* A discriminator is a record                                             *)
(*   n     entry size                                                      *)
(*   base  the base of the addresses (input values are 0..base-1)          *)
(*   iz    ignoreZero                                                      *)
(*   map   the addressing: one sequence of entry positions (0-based) per   *)
(*         RAM                                                             *)
(*   cells per RAM the function  address -> number of learned examples;    *)
(*         an address is the tuple of values the RAM reads, in the order   *)
(*         of its positions (its stored number is Word64 of that tuple)    *)
(*   cnt   number of learned examples                                      *)
(***************************************************************************)
EXTENDS Bytes, BigNat

EmptyFn == [ x \in {} |-> 0 ]

------------------------------------------------------------------------------
(* Addressing *)

NumberOfRams(n, a, complete) ==
  IF a < 1 THEN 0
  ELSE (n \div a) + (IF complete /\ n % a > 0 THEN 1 ELSE 0)

ConcatAll(ss) == FlattenSeq(ss)

\* what an addressing chosen by the library may be (neither indexes nor mapping given)
ValidShuffle(m, n, a, complete) ==
  LET full == complete /\ n % a > 0
      read == TLCEval(UNION { RangeOf(m[r]) : r \in 1..Len(m) })
  IN /\ Len(m) = NumberOfRams(n, a, complete)
     /\ \A r \in 1..Len(m) : Len(m[r]) = a
     /\ \A p \in read : p \in 0..(n-1)
     /\ IF full THEN Cardinality(read) = n                          \* every position is read
                ELSE Cardinality(read) = a * Len(m)                  \* no position twice

\* the consecutive full groups of a list of indexes
IndexMap(idx, n, a) == [ r \in 1..(n \div a) |-> SubSeq(idx, (r-1)*a + 1, r*a) ]

SizesOk(n, a) == a >= 2 /\ n >= 2 /\ a <= n
IndexesOk(idx, n) ==
  /\ Len(idx) = n
  /\ \A i \in 1..Len(idx) : idx[i] >= 0 /\ idx[i] < n
  /\ Cardinality(RangeOf(idx)) = Len(idx)
MappingOk(m, n, base) ==
  \A r \in 1..Len(m) :
     /\ ~ ExceedsWord(base, Len(m[r]))
     /\ \A i \in 1..Len(m[r]) : m[r][i] >= 0 /\ m[r][i] < n

\* is the configuration of a discriminator accepted?  idx, m: <<>> if not given
ConfigOk(n, a, base, idx, m) ==
  /\ base >= 2
  /\ IF m # <<>> THEN MappingOk(m, n, base)
     ELSE /\ SizesOk(n, a)
          /\ ~ ExceedsWord(base, a)
          /\ idx # <<>> => IndexesOk(idx, n)

\* the addressings a new discriminator may get; chosen is the one the library picked
AddressingOk(map, n, a, complete, idx, m) ==
  IF m # <<>> THEN map = m
  ELSE IF idx # <<>> THEN map = IndexMap(idx, n, a)
  ELSE ValidShuffle(map, n, a, complete)

------------------------------------------------------------------------------
(* Learning and answering *)

NewD(n, base, iz, map) ==
  [ n |-> n, base |-> base, iz |-> iz, map |-> map,
    cells |-> [ r \in 1..Len(map) |-> EmptyFn ], cnt |-> 0 ]

Forget(D) == [ D EXCEPT !.cells = [ r \in 1..Len(D.map) |-> EmptyFn ], !.cnt = 0 ]

Digits(D, r, x) == TLCEval([ i \in 1..Len(D.map[r]) |-> x[D.map[r][i] + 1] ])

\* an input is accepted iff it has the entry size and every addressed value is a digit
Accepts(D, x) ==
  /\ Len(x) = D.n
  /\ \A r \in 1..Len(D.map) : \A i \in 1..Len(D.map[r]) :
        LET v == x[D.map[r][i] + 1] IN v >= 0 /\ v < D.base

CellAt(D, r, d) == IF d \in DOMAIN D.cells[r] THEN D.cells[r][d] ELSE 0

Vote(D, r, x) ==
  LET d == Digits(D, r, x)
  IN IF D.iz /\ \A i \in 1..Len(d) : d[i] = 0 THEN 0 ELSE CellAt(D, r, d)

Votes(D, x) == TLCEval([ r \in 1..Len(D.map) |-> Vote(D, r, x) ])

PutCell(c, d, v) == TLCEval([ e \in DOMAIN c \cup {d} |-> IF e = d THEN v ELSE c[e] ])

Learn(D, x) ==
  [ D EXCEPT !.cnt = @ + 1,
             !.cells = TLCEval([ r \in 1..Len(D.map) |->
                           LET d == Digits(D, r, x)
                           IN PutCell(D.cells[r], d, CellAt(D, r, d) + 1) ]) ]

\* x learned k times
LearnTimes(D, x, k) ==
  [ D EXCEPT !.cnt = @ + k,
             !.cells = TLCEval([ r \in 1..Len(D.map) |->
                           LET d == Digits(D, r, x)
                           IN PutCell(D.cells[r], d, CellAt(D, r, d) + k) ]) ]

Unlearn(D, x) ==
  [ D EXCEPT !.cnt = @ - 1,
             !.cells = TLCEval([ r \in 1..Len(D.map) |->
                           LET d == Digits(D, r, x)
                           IN IF d \in DOMAIN D.cells[r]
                              THEN PutCell(D.cells[r], d, D.cells[r][d] - 1)
                              ELSE D.cells[r] ]) ]

\* Untraining what was not learned (or not any more) means nothing: the contents may follow the
\* rule of Unlearn below zero, or stop at zero, or not change at all.
UnlearnSome(D, x) ==
  [ D EXCEPT !.cells = TLCEval([ r \in 1..Len(D.map) |->
                           LET d == Digits(D, r, x)
                           IN IF CellAt(D, r, d) > 0
                              THEN PutCell(D.cells[r], d, D.cells[r][d] - 1)
                              ELSE D.cells[r] ]) ]
OverUnlearn(D, x) ==
  LET Counted(E) == { E, [ E EXCEPT !.cnt = D.cnt - 1 ] }
  IN Counted(D) \cup Counted(UnlearnSome(D, x)) \cup Counted(Unlearn(D, x))

\* the learned contents: cells that count nothing are not contents
Contents(D) == TLCEval([ r \in 1..Len(D.map) |->
                   { <<d, D.cells[r][d]>> : d \in { e \in DOMAIN D.cells[r] : D.cells[r][e] # 0 } } ])

------------------------------------------------------------------------------
(* Mental image: per entry position, how often a non-zero value was learned *)
(* through any slot that reads the position                                 *)

SumOf(S, c) == MapThenSumSet(LAMBDA d : c[d], S)

SlotCount(D, r, i) == SumOf({ d \in DOMAIN D.cells[r] : d[i] > 0 }, D.cells[r])

SlotPairs(D) == { <<r, i>> : r \in 1..Len(D.map), i \in 1..MaxOf({0} \cup { Len(D.map[q]) : q \in 1..Len(D.map) }) }
MentalImage(D) ==
  LET slots == { s \in SlotPairs(D) : s[2] <= Len(D.map[s[1]]) }
      count == TLCEval([ s \in slots |-> SlotCount(D, s[1], s[2]) ])
  IN TLCEval([ p \in 1..D.n |-> SumOf({ s \in slots : D.map[s[1]][s[2]] = p - 1 }, count) ])
=============================================================================
