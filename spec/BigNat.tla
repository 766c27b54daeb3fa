------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers above 2^31 (TLC integers are 32 bit), as little endian  *)
(* sequences of 12 bit limbs; and 64 bit addresses as four 16 bit limbs.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

RECURSIVE Gcd(_, _)
Gcd(p, q) == IF q = 0 THEN p ELSE Gcd(q, p % q)

\* the sign of a/b - c/d, without products that could exceed TLC's integers (by Euclid)
RECURSIVE FracSign(_, _, _, _)
FracSign(a, b, c, d) ==
  IF a \div b # c \div d THEN (IF a \div b > c \div d THEN 1 ELSE -1)
  ELSE LET p == a % b
           q == c % d
       IN IF p = 0 /\ q = 0 THEN 0 ELSE IF p = 0 THEN -1 ELSE IF q = 0 THEN 1 ELSE FracSign(d, q, b, p)

\* p/q in millionths, rounded down (q < 2*10^8): k more decimal places of a quotient v with
\* remainder r
RECURSIVE MorePlaces(_, _, _, _)
MorePlaces(v, r, q, k) == IF k = 0 THEN v ELSE MorePlaces(10 * v + (10 * r) \div q, (10 * r) % q, q, k - 1)
Millionths(p, q) == MorePlaces(p \div q, p % q, q, 6)

LimbBase == 4096

RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % LimbBase>> \o Limbs(n \div LimbBase)

RECURSIVE Carry(_, _)
Carry(s, c) ==
  IF s = <<>> THEN Limbs(c)
  ELSE LET v == s[1] + c IN <<v % LimbBase>> \o Carry(Tail(s), v \div LimbBase)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n-1)

BigMul(x, y) ==
  IF x = <<>> \/ y = <<>> THEN <<>>
  ELSE LET n == Len(x) + Len(y) - 1
           coef == [ k \in 1..n |->
                      LET t == [ i \in 1..Len(x) |->
                                   IF k+1-i >= 1 /\ k+1-i <= Len(y) THEN x[i] * y[k+1-i] ELSE 0 ]
                      IN SumTo(t, Len(x)) ]
       IN Carry(coef, 0)

\* x > y, for numbers without leading zero limbs
RECURSIVE BigGt(_, _)
BigGt(x, y) ==
  IF Len(x) # Len(y) THEN Len(x) > Len(y)
  ELSE IF x = <<>> THEN FALSE
  ELSE LET n == Len(x)
       IN IF x[n] # y[n] THEN x[n] > y[n]
          ELSE BigGt(SubSeq(x, 1, n-1), SubSeq(y, 1, n-1))

RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x)-1)) ELSE x

Two64 == <<0, 0, 0, 0, 0, 16>>          \* 2^(5*12+4)

\* number of bits needed to write 0 .. b-1, that is the least k with 2^k >= b (b >= 2)
RECURSIVE BitsFor(_)
BitsFor(b) == IF b <= 2 THEN 1 ELSE 1 + BitsFor((b + 1) \div 2)

RECURSIVE PowGt64(_, _, _)
\* acc * b^k > 2^64
PowGt64(acc, b, k) ==
  IF BigGt(acc, Two64) THEN TRUE
  ELSE IF k = 0 THEN FALSE
  ELSE PowGt64(Trim(BigMul(acc, b)), b, k-1)

\* b^a > 2^64 for b >= 2
ExceedsWord(b, a) ==
  LET k == BitsFor(b)
  IN IF k * a <= 64 THEN FALSE
     ELSE IF a > 64 THEN TRUE
     ELSE PowGt64(<<1>>, Limbs(b), a)

\* the 64 bit number  d[1] + d[2]*b + d[3]*b^2 ...  as four 16 bit limbs (b < 2^15)
RECURSIVE MulAdd16(_, _, _, _)
MulAdd16(limbs, i, b, c) ==
  IF i > 4 THEN <<>>
  ELSE LET v == limbs[i] * b + c IN <<v % 65536>> \o MulAdd16(limbs, i+1, b, v \div 65536)

RECURSIVE Word64From(_, _, _, _)
Word64From(d, b, i, acc) ==
  IF i = 0 THEN acc ELSE Word64From(d, b, i-1, MulAdd16(acc, 1, b, d[i]))
Word64(d, b) == Word64From(d, b, Len(d), <<0, 0, 0, 0>>)
=============================================================================
