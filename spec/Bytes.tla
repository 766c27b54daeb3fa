------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Texts.  A text (label, file prefix, snapshot ...) is a sequence of      *)
(* bytes 0..255.  TLC strings are atomic, labels must be compared and cut, *)
(* so every label of the specification is such a sequence.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets,
        SequencesExt,       \* SetToSeq, FlattenSeq
        FiniteSetsExt,      \* MapThenSumSet
        TLC                 \* SortSeq; TLCEval(f) is f (TLC then evaluates f once, not at every use)

Byte == 0..255

\* the element of a set of one.  (TLC evaluates a LET again at every use inside a recursive
\* operator, but the variable of a set only once: hence The({ f(v) : v \in {e} }).)
The(S) == CHOOSE v \in S : TRUE

MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x
MinNat(a, b) == IF a < b THEN a ELSE b

RangeOf(s) == { s[i] : i \in 1..Len(s) }

\* strict bytewise (unsigned) lexicographic order; a proper prefix sorts first
LexLess(a, b) ==
  LET m == MinNat(Len(a), Len(b))
  IN IF \A i \in 1..m : a[i] = b[i] THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE i \in 1..m : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j] IN a[i] < b[i]

\* the text of the (non-empty) set T that sorts last
LexMax(T) == CHOOSE t \in T : \A u \in T : u = t \/ LexLess(u, t)

RECURSIVE Decimal(_)
\* the decimal digits of n as text
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))

\* the texts of T in ascending order
SortTexts(T) == SortSeq(SetToSeq(T), LexLess)

\* a function given as a sequence of <<key, value>> pairs (as JSON carries it)
FnOfPairs(ps) == TLCEval([ k \in { ps[i][1] : i \in 1..Len(ps) } |->
                             ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2] ])
=============================================================================
