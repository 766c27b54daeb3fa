------------------------------- MODULE Canvas -------------------------------
(***************************************************************************)
(* KernelCanvas.  A canvas has                                             *)
(*   cfg      [dim, n, bits, act, actden, dir]: dimension, number of       *)
(*            kernels, bits per kernel, activationDegree = act/actden,     *)
(*            useDirection                                                 *)
(*   kernels  n points, coordinates in -1..1 scaled by SC and rounded      *)
(* Sequences are integer points.  Real numbers are computed as integers    *)
(* scaled by SC, each with a bound on its error, so that the nearest       *)
(* kernels come out as a set of sure and a set of possible ones.           *)
(***************************************************************************)
EXTENDS Bytes

SC == 3000

\* SC * tanh(k/64), rounded, k = 0, 1, ...
TanhTable == <<
    0, 47, 94, 141, 187, 234, 280, 327, 373, 419, 465, 511, 556, 601, 646, 691,
    735, 779, 822, 865, 908, 951, 992, 1034, 1075, 1116, 1156, 1196, 1235, 1273, 1312, 1349,
    1386, 1423, 1459, 1495, 1529, 1564, 1598, 1631, 1664, 1696, 1728, 1759, 1789, 1819, 1848, 1877,
    1905, 1933, 1960, 1987, 2013, 2038, 2063, 2088, 2112, 2135, 2158, 2180, 2202, 2224, 2244, 2265,
    2285, 2304, 2323, 2342, 2360, 2378, 2395, 2412, 2428, 2444, 2459, 2475, 2489, 2504, 2518, 2532,
    2545, 2558, 2570, 2583, 2595, 2606, 2618, 2629, 2639, 2650, 2660, 2670, 2680, 2689, 2698, 2707,
    2715, 2724, 2732, 2740, 2747, 2755, 2762, 2769, 2776, 2783, 2789, 2795, 2801, 2807, 2813, 2819,
    2824, 2829, 2834, 2839, 2844, 2849, 2853, 2858, 2862, 2866, 2870, 2874, 2878, 2882, 2885, 2889,
    2892, 2895, 2899, 2902, 2905, 2907, 2910, 2913, 2916, 2918, 2921, 2923, 2925, 2928, 2930, 2932,
    2934, 2936, 2938, 2940, 2942, 2944, 2945, 2947, 2949, 2950, 2952, 2953, 2955, 2956, 2957, 2959,
    2960, 2961, 2962, 2963, 2965, 2966, 2967, 2968, 2969, 2970, 2971, 2971, 2972, 2973, 2974, 2975,
    2976, 2976, 2977, 2978, 2978, 2979, 2980, 2980, 2981, 2982, 2982, 2983, 2983, 2984, 2984, 2985,
    2985, 2986, 2986, 2986, 2987, 2987, 2988, 2988, 2988, 2989, 2989, 2989, 2990, 2990, 2990, 2991,
    2991, 2991, 2992, 2992, 2992, 2992, 2993, 2993, 2993, 2993, 2993, 2994, 2994, 2994, 2994, 2994,
    2995, 2995, 2995, 2995, 2995, 2995, 2995, 2996, 2996, 2996, 2996, 2996, 2996, 2996, 2996, 2997,
    2997, 2997, 2997, 2997, 2997, 2997, 2997, 2997, 2997, 2997, 2998, 2998, 2998, 2998, 2998, 2998,
    2998, 2998, 2998, 2998, 2998, 2998, 2998, 2998, 2998, 2998, 2999, 2999, 2999, 2999, 2999, 2999,
    2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999,
    2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 2999, 3000, 3000, 3000,
    3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000,
    3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000,
    3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000,
    3000 >>

CanvasOk(cfg) == cfg.n >= 1 /\ cfg.dim >= 1 /\ cfg.bits >= 1 /\ cfg.act >= 0 /\ cfg.act <= cfg.actden

BlockSize(cfg)  == cfg.dim + 2 * (cfg.dim - 1)
KernelSize(cfg) == IF cfg.dir THEN 3 * BlockSize(cfg) ELSE cfg.dim
\* the kernels of a tree in which the verification hook does not build
Hidden == << >>
KernelsOk(cfg, ks) == ks = Hidden \/
  /\ Len(ks) = cfg.n
  /\ \A i \in 1..Len(ks) : /\ Len(ks[i]) = KernelSize(cfg)
                           /\ \A d \in 1..Len(ks[i]) : ks[i][d] >= -SC /\ ks[i][d] <= SC

\* how many kernels one point activates (rounded half up)
Activated(cfg) == (2 * cfg.act * cfg.n + cfg.actden) \div (2 * cfg.actden)

Abs(v) == IF v < 0 THEN -v ELSE v

RECURSIVE SumOver(_, _)
SumOver(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumOver(f, k-1)

RECURSIVE Root(_, _, _)
Root(v, lo, hi) == IF lo = hi THEN lo
                   ELSE LET mid == (lo + hi + 1) \div 2
                        IN IF mid * mid <= v THEN Root(v, mid, hi) ELSE Root(v, lo, mid - 1)

RECURSIVE Quads(_)
\* the largest k with v * 4^k < 2^30
Quads(v) == IF v >= 268435456 THEN 0 ELSE 1 + Quads(v * 4)

RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k-1)

\* SC * tanh(z/1024)
TanhPos(z) ==
  LET k == z \div 16
      f == z % 16
  IN IF k + 2 > Len(TanhTable) THEN SC
     ELSE TanhTable[k+1] + ((TanhTable[k+2] - TanhTable[k+1]) * f) \div 16
TanhOf(z) == IF z < 0 THEN -TanhPos(-z) ELSE TanhPos(z)

\* The standardised and squashed coordinate j of every point of seq.  A constant coordinate is 0.
Column(seq, j) ==
  LET n    == Len(seq)
      sum  == SumOver(TLCEval([ i \in 1..n |-> seq[i][j] ]), n)
      dev  == TLCEval([ i \in 1..n |-> sum - n * seq[i][j] ])           \* n * (mean - x)
      sq   == SumOver(TLCEval([ i \in 1..n |-> dev[i] * dev[i] ]), n)   \* n^3 * variance
      k    == Quads(sq)
      sd   == Root((sq * TwoTo(2*k)) \div n, 0, 32768)         \* 2^k * n * standard deviation
  IN IF sq = 0 THEN [ i \in 1..n |-> 0 ]
     ELSE TLCEval([ i \in 1..n |-> TanhOf((IF dev[i] < 0 THEN -1 ELSE 1) *
                                          ((Abs(dev[i]) * 1024 * TwoTo(k)) \div sd)) ])
PointError == 8

\* coordinates of all points: <<value, error bound>>
Points(cfg, seq) ==
  LET cols == TLCEval([ j \in 1..cfg.dim |-> Column(seq, j) ])
      same == TLCEval([ j \in 1..cfg.dim |-> \A i \in 1..Len(seq) : seq[i][j] = seq[1][j] ])
  IN TLCEval([ i \in 1..Len(seq) |->
                 [ j \in 1..cfg.dim |-> << cols[j][i], IF same[j] THEN 1 ELSE PointError >> ] ])

------------------------------------------------------------------------------
(* With useDirection a point is described by its block (coordinates, then  *)
(* for neighbouring coordinates the direction towards the next point), the *)
(* block of the previous point and the block of the one before.            *)

Direction(dx, dy, sameX, sameY) ==
  LET hyp == Root(dx * dx + dy * dy, 0, 32768)
      err == IF hyp <= 4 * PointError THEN 2 * SC ELSE (6 * PointError * SC) \div hyp + 2
  IN IF sameX /\ sameY THEN << <<0, 0>>, <<0, 0>> >>
     ELSE IF sameX THEN << <<0, 0>>, << IF dy > 0 THEN SC ELSE -SC, IF dy = 0 THEN 2*SC ELSE 0>> >>
     ELSE IF sameY THEN << << IF dx > 0 THEN SC ELSE -SC, IF dx = 0 THEN 2*SC ELSE 0>>, <<0, 0>> >>
     ELSE << << (dx * SC) \div (IF hyp = 0 THEN 1 ELSE hyp), err >>,
             << (dy * SC) \div (IF hyp = 0 THEN 1 ELSE hyp), err >> >>

RECURSIVE Flat2(_)
Flat2(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat2(Tail(s))

Directions(cfg, seq, pts, i) ==
  Flat2(TLCEval([ j \in 1..(cfg.dim - 1) |->
            IF Len(seq) = 1 THEN << <<0, 0>>, <<0, 0>> >>
            ELSE LET a == IF i < Len(seq) THEN i ELSE i - 1      \* the last point repeats the last direction
                 IN Direction(pts[a+1][j][1] - pts[a][j][1], pts[a+1][j+1][1] - pts[a][j+1][1],
                              seq[a+1][j] = seq[a][j], seq[a+1][j+1] = seq[a][j+1]) ]))

Block(cfg, seq, pts, i) == pts[i] \o Directions(cfg, seq, pts, i)
Feature(cfg, seq, pts, i) ==
  IF ~ cfg.dir THEN pts[i]
  ELSE LET at(k) == Block(cfg, seq, pts, IF k < 1 THEN 1 ELSE k)
       IN at(i) \o at(i-1) \o at(i-2)

------------------------------------------------------------------------------
(* The nearest kernels.  lo, hi: bounds of the squared distance            *)

DistBounds(f, kern) ==
  LET n == Len(f)
      diff == TLCEval([ d \in 1..n |-> Abs(f[d][1] - kern[d]) ])
      err  == [ d \in 1..n |-> f[d][2] + 1 ]
      low  == TLCEval([ d \in 1..n |-> LET v == IF diff[d] > err[d] THEN diff[d] - err[d] ELSE 0 IN v * v ])
      high == TLCEval([ d \in 1..n |-> LET v0 == diff[d] + err[d]
                                       v == IF v0 > 2 * SC THEN 2 * SC ELSE v0 IN v * v ])
  IN << SumOver(low, n), SumOver(high, n) >>

\* the kernels among the m nearest of a point (1 <= m <= n): <<surely, possibly>>.  Surely: fewer
\* than m others can be as near; possibly: fewer than m others are surely nearer.
Bounds(f, kernels) == TLCEval([ i \in 1..Len(kernels) |-> DistBounds(f, kernels[i]) ])
NearestDef(m, b) ==
  LET K == 1..Len(b)
  IN << { i \in K : Cardinality({ j \in K \ {i} : b[j][1] <= b[i][2] }) < m },
        { i \in K : Cardinality({ j \in K \ {i} : b[j][2] <  b[i][1] }) < m } >>
\* the same by way of the m-th smallest bounds (MC_Canvas: NearestIsNearest)
Nearest(m, b) ==
  LET K == 1..Len(b)
  IN The({ << { i \in K : m = Len(b) \/ lows[m+1] > b[i][2] }, { i \in K : highs[m] >= b[i][1] } >>
           : lows \in { SortSeq([ i \in K |-> b[i][1] ], <) }, highs \in { SortSeq([ i \in K |-> b[i][2] ], <) } })

\* out is a possible result of transform(seq)
TransformOk(cfg, kernels, seq, out) ==
  LET n == cfg.n
      group(i) == SubSeq(out, (i-1) * cfg.bits + 1, i * cfg.bits)
      m == MinNat(Activated(cfg), n)
      pts == Points(cfg, seq)
      near == TLCEval([ i \in 1..Len(seq) |-> IF kernels = Hidden THEN << {}, 1..n >> ELSE Nearest(m, Bounds(TLCEval(Feature(cfg, seq, pts, i)), kernels)) ])
      sure == UNION { near[i][1] : i \in 1..Len(seq) }
      may  == UNION { near[i][2] : i \in 1..Len(seq) }
  IN /\ Len(out) = n * cfg.bits
     /\ \A i \in 1..n : group(i) = [ k \in 1..cfg.bits |-> 0 ] \/ group(i) = [ k \in 1..cfg.bits |-> 1 ]
     /\ LET on == { i \in 1..n : group(i) = [ k \in 1..cfg.bits |-> 1 ] }
        IN IF seq = <<>> \/ m = 0 THEN on = {}
           ELSE /\ sure \subseteq on /\ on \subseteq may
                /\ Cardinality(on) >= m
                /\ Cardinality(on) <= m * Len(seq)
=============================================================================
