-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* The data holders: BinInput, DataSet, RAMDataHandle, Synthesizer.        *)
(*   BinInput       sequence of bits                                       *)
(*   DataSet        sequence of [x, y]; y = <<>> is an entry without label *)
(*   RAMDataHandle  sequence of functions address -> value (an address is  *)
(*                  a Word64, four 16 bit limbs)                           *)
(*   Synthesizer    the mental image it was built from                     *)
(***************************************************************************)
EXTENDS Discriminators

IsBit(v) == v = 0 \/ v = 1
BitsOk(x) == \A i \in 1..Len(x) : IsBit(x[i])

\* RAM contents as a handle sees them (cells of a snapshot, including those counting 0)
HandleOf(D) ==
  TLCEval([ r \in 1..Len(D.map) |->
      LET worded == { << Word64(d, D.base), D.cells[r][d] >> : d \in DOMAIN D.cells[r] }
      IN [ a \in { q[1] : q \in worded } |-> (CHOOSE q \in worded : q[1] = a)[2] ] ])

\* H holds what D has learned (whether a cell that counts nothing is stored does not matter)
HandleLike(H, D) ==
  LET G == HandleOf(D)
      learned(m) == { <<a, m[a]>> : a \in { b \in DOMAIN m : m[b] # 0 } }
  IN Len(H) = Len(G) /\ \A r \in 1..Len(G) : learned(H[r]) = learned(G[r])

NoRam == EmptyFn
RamAt(H, r) == IF r >= 0 /\ r < Len(H) THEN H[r+1] ELSE NoRam
CellOf(H, r, a) == LET m == RamAt(H, r) IN IF a \in DOMAIN m THEN m[a] ELSE 0
\* writing beyond the last RAM adds empty RAMs up to it
Grow(H, r) == [ i \in 1..(IF Len(H) > r + 1 THEN Len(H) ELSE r + 1) |-> IF i <= Len(H) THEN H[i] ELSE NoRam ]
SetCell(H, r, a, v) == LET G == Grow(H, r) IN [ G EXCEPT ![r+1] = PutCell(@, a, v) ]
RamPairs(m) == { <<a, m[a]>> : a \in DOMAIN m }

MaxIntensity(img) == IF img = <<>> THEN 0 ELSE MaxOf({ img[i] : i \in 1..Len(img) })
\* what one draw may be
DrawOk(img, v) ==
  /\ Len(v) = Len(img)
  /\ \A i \in 1..Len(img) :
       /\ IsBit(v[i])
       /\ img[i] = 0 => v[i] = 0
       /\ (img[i] > 0 /\ img[i] = MaxIntensity(img)) => v[i] = 1
\* How often each position may be 1 in n draws: mean n*img[i]/max, six standard deviations and
\* a little more.  (max <= 50 and n <= 600 keep the products below 2^31.)
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) ==                                    \* the largest k in lo..hi with k*k <= n
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= n THEN Isqrt(n, mid, hi) ELSE Isqrt(n, lo, mid - 1)
CountOk(img, i, c, n) ==
  LET mx  == MaxIntensity(img)
      v   == img[i]
      dev == IF c * mx > n * v THEN c * mx - n * v ELSE n * v - c * mx
      sd  == Isqrt(n * v * (mx - v), 0, 46340) + 1     \* max * standard deviation
  IN IF mx = 0 \/ v = 0 THEN c = 0 ELSE IF v = mx THEN c = n ELSE dev <= 6 * sd + mx
\* intensities only count relative to each other
RECURSIVE GcdTo(_, _)
GcdTo(img, k) == IF k = 0 THEN 0 ELSE Gcd(img[k], GcdTo(img, k-1))
Reduced(img) == LET q == GcdTo(img, Len(img)) IN IF q = 0 THEN img ELSE TLCEval([ i \in 1..Len(img) |-> img[i] \div q ])
CountsOk(img, cs, n) == LET red == Reduced(img) IN Len(cs) = Len(img) /\ \A i \in 1..Len(img) : CountOk(red, i, cs[i], n)
=============================================================================
