------------------------------ MODULE MC_Canvas ------------------------------
(***************************************************************************)
(* C20.  Sequences are built point by point; kernels are any.  The bounds  *)
(* the specification computes are consistent (sure kernels are possible    *)
(* ones, m of them can be chosen), and without direction the features do   *)
(* not depend on the order of the points, on repetition, on a shift or on  *)
(* a positive scaling.                                                     *)
(***************************************************************************)
EXTENDS Canvas

CONSTANTS MaxCoord, MaxPoints, Dim, NK, Coords

VARIABLES seq, kernels, act
v == << seq, kernels, act >>

Cfg == [ dim |-> Dim, n |-> NK, bits |-> 1, act |-> act, actden |-> 4, dir |-> FALSE ]

Init == /\ seq = <<>> /\ act \in 0..4
        /\ kernels \in { k \in [ 1..NK -> [ 1..Dim -> { c - SC : c \in Coords } ] ] : \A i \in 1..(NK-1) : k[i][1] <= k[i+1][1] }
Next == /\ Len(seq) < MaxPoints
        /\ \E p \in [ 1..Dim -> 0..MaxCoord ] : seq' = Append(seq, p)
        /\ UNCHANGED << kernels, act >>
Spec == Init /\ [][Next]_v

M == MinNat(Activated(Cfg), NK)
Pts(s) == Points(Cfg, s)
Near(s) == LET p == Pts(s) IN [ i \in 1..Len(s) |-> Nearest(M, Bounds(Feature(Cfg, s, p, i), kernels)) ]
NearestIsNearest ==
  M > 0 => LET p == Pts(seq) IN
    \A i \in 1..Len(seq) : LET b == Bounds(Feature(Cfg, seq, p, i), kernels) IN Nearest(M, b) = NearestDef(M, b)
Consistent ==
  (seq # <<>> /\ M > 0) => LET near == Near(seq) IN
    \A i \in 1..Len(seq) : /\ near[i][1] \subseteq near[i][2]
                           /\ Cardinality(near[i][1]) <= M
                           /\ (M > 0 => Cardinality(near[i][2]) >= M)

\* at least one result is possible, and choosing the sure kernels and enough of the others gives it
Reversed(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]
Moved(s, a, k) == [ i \in 1..Len(s) |-> [ j \in 1..Dim |-> a + k * s[i][j] ] ]
Close(p, q) == \A j \in 1..Dim : LET d == p[j][1] - q[j][1] IN d <= p[j][2] + q[j][2] /\ -d <= p[j][2] + q[j][2]
Invariant ==
  seq # <<>> =>
    LET p == Pts(seq) IN
    /\ LET r == Pts(Reversed(seq)) IN \A i \in 1..Len(seq) : Close(p[i], r[Len(seq) + 1 - i])
    /\ LET r == Pts(Moved(seq, 7, 3)) IN \A i \in 1..Len(seq) : Close(p[i], r[i])
    /\ LET r == Pts(seq \o seq) IN \A i \in 1..Len(seq) : Close(p[i], r[i]) /\ Close(p[i], r[Len(seq) + i])
\* the standardised coordinates are what they should be - (mean - x) / sd, as the library has it:
\* opposite points are opposite, the order is reversed
Ordered ==
  seq # <<>> =>
    LET p == Pts(seq) IN
    /\ \A i, k \in 1..Len(seq) : \A j \in 1..Dim :
         /\ seq[i][j] <= seq[k][j] => p[i][j][1] >= p[k][j][1]
         /\ p[i][j][1] \in -SC..SC
    /\ Len(seq) = 2 => \A j \in 1..Dim : p[1][j][1] = - p[2][j][1]
    /\ \A j \in 1..Dim : (\A i \in 1..Len(seq) : seq[i][j] = seq[1][j]) => \A i \in 1..Len(seq) : p[i][j][1] = 0
\* two distinct values are one standard deviation away from their mean: tanh(1) = 0.76159
ASSUME TwoPoints == Points([ dim |-> 1 ], << <<0>>, <<1>> >>)[1][1][1] \in 2280..2290
ASSUME TableMonotone == \A i \in 1..(Len(TanhTable) - 1) : TanhTable[i] <= TanhTable[i+1]
=============================================================================
