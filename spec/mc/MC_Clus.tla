------------------------------- MODULE MC_Clus -------------------------------
(***************************************************************************)
(* ClusWisard over a small scope: every history of supervised, semi-       *)
(* supervised and unsupervised training.  The growth rule (C11) is stated  *)
(* here per step, from the states before and after, not through Present;   *)
(* shown counts what was presented to which cluster (C12, C13); what is    *)
(* answered is a learned label (C14).                                      *)
(***************************************************************************)
EXTENDS Invariants, TLC

CONSTANTS N, Lim, Scores4, Thresholds, MaxShown, Values

VARIABLES shown,    \* label -> how many examples were presented to its cluster; <<0>> is the cluster without label
          last      \* the last call: [k, xs, ys]
mvars == << objs, snaps, ret, shown, last >>

O == "c"
M == objs[O].m
Created == O \in DOMAIN objs
LabelsIn == { <<97>>, <<98>> }
UnsKey == <<0>>
Inputs == Values
Values3 == { <<1, 0, 1>>, <<1, 1, 1>>, <<0, 0, 0>> }
Values4 == { <<1, 0, 1, 1>>, <<1, 1, 1, 0>>, <<0, 0, 0, 1>> }
\* the addressings members of a cluster get
Maps == IF N = 4 THEN << << <<0, 1>>, <<2, 3>> >>, << <<3, 0>>, <<1, 2>> >>, << <<0, 2>>, <<3, 1>> >> >>
        ELSE << << <<0, 1>> >>, << <<2, 1>> >>, << <<0, 2>> >> >>
Ch == [ y \in LabelsIn \cup { <<>> } |-> Maps ]

MCInit == Init /\ shown = EmptyFn /\ last = [ k |-> "none", xs |-> <<>>, ys |-> <<>> ]
New == /\ ~ Created
       /\ \E ms \in Scores4, th \in Thresholds, lim \in 1..Lim, iz \in BOOLEAN :
            CNew(O, [ a |-> 2, ms |-> ms, msden |-> 4, th |-> th, lim |-> lim, bleach |-> TRUE, iz |-> iz,
                      complete |-> FALSE, base |-> 2, conf |-> 1, fields |-> {} ])
       /\ UNCHANGED << shown, last >>
Count == SumOf(DOMAIN shown, shown)
Bump(f, y) == PutCell(f, y, 1 + (IF y \in DOMAIN f THEN f[y] ELSE 0))

Train == /\ Created /\ Count < MaxShown
         /\ \E x \in Inputs, y \in LabelsIn :
              /\ CTrain(O, <<x>>, <<y>>, Ch, ToldNothing)
              /\ shown' = Bump(shown, y)
              /\ last' = [ k |-> "train", xs |-> <<x>>, ys |-> <<y>> ]
TrainSemi == /\ Created /\ Count + 1 < MaxShown
             /\ \E x \in Inputs, z \in Inputs, y \in LabelsIn, i \in 0..1 :
                  /\ CTrainSemi(O, <<x, z>>, << <<i, y>> >>, Ch, ToldNothing)
                  \* the label the other example goes to, in the state after the labelled one
                  /\ LET M1 == (CHOOSE r \in PresentLabelled(M, <<x, z>>[i+1], y, Ch, Nothing) : TRUE).obj
                     IN shown' = Bump(Bump(shown, y), PredictC(M1, <<x, z>>[2-i]))
                  /\ last' = [ k |-> "semi", xs |-> <<x, z>>, ys |-> <<y>> ]
TrainUns == /\ Created /\ Count < MaxShown
            /\ \E x \in Inputs :
                 /\ CTrainUns(O, <<x>>, Maps, ToldNothing)
                 /\ shown' = Bump(shown, UnsKey)
                 /\ last' = [ k |-> "uns", xs |-> <<x>>, ys |-> << UnsKey >> ]
MCNext == New \/ Train \/ TrainSemi \/ TrainUns
MCSpec == MCInit /\ [][MCNext]_mvars

------------------------------------------------------------------------------
ClusterOf(Q, y) == IF y = UnsKey THEN Q.uns ELSE IF y \in DOMAIN Q.cl THEN Q.cl[y] ELSE NoCluster
Keys == LabelsIn \cup { UnsKey, <<>> }

\* one presented example, from the two states around it
ThresholdOf(D) == << M.cfg.ms * M.cfg.th + D.cnt * 4, 4 * M.cfg.th >>
Qualifies(D, x) ==
  LET t == ThresholdOf(D)
      lim == IF t[1] >= t[2] THEN <<1, 1>> ELSE t
      vs == Votes(D, x)
      top == MaxOf({ vs[r] : r \in 1..Len(vs) })
      sum == SumSeq(vs)
  IN IF top = 0 THEN 0 >= lim[1] ELSE sum * lim[2] >= lim[1] * top * Len(vs)
GrowthRule ==
  last'.k \in {"train", "uns"} /\ shown' # shown =>
    LET y == last'.ys[1]
        x == last'.xs[1]
        Q == objs'[O].m
        A == ClusterOf(M, y).ds
        B == ClusterOf(Q, y).ds
        q == { i \in 1..Len(A) : Qualifies(A[i], x) }
        learned == { i \in 1..Len(A) : B[i] = Learn(A[i], x) }
        same == { i \in 1..Len(A) : B[i] = A[i] }
    IN /\ \A k \in Keys \ {y} : ClusterOf(Q, k) = ClusterOf(M, k)
       /\ Len(B) \in { Len(A), Len(A) + 1 }
       /\ learned \cup same = 1..Len(A) /\ learned \cap same = {}
       /\ A = <<>> => Len(B) = 1
       /\ Len(B) > Len(A) => /\ B[Len(B)].cnt = 1 /\ learned = {} /\ q = {} /\ Len(A) < M.cfg.lim
       /\ Len(B) = Len(A) => /\ learned # {}
                             /\ q # {} => learned = q
                             /\ q = {} => Len(A) = M.cfg.lim /\ Cardinality(learned) = 1
Growth == [][Created => GrowthRule]_mvars

\* every presented example is learned by at least one member of its cluster, with limit 1 by exactly one
Cnts(K) == SumSeq([ i \in 1..Len(K.ds) |-> K.ds[i].cnt ])
EveryExampleOnce ==
  Created => \A y \in Keys :
    LET n == IF y \in DOMAIN shown THEN shown[y] ELSE 0
        c == Cnts(ClusterOf(M, y))
    IN /\ c >= n /\ c <= n * M.cfg.lim
       /\ M.cfg.lim = 1 => c = n
       /\ n = 0 <=> ClusterOf(M, y).ds = <<>>

\* C12: training in one step is the labelled example, then the other one
SemiIsSequence ==
  Created => \A x \in Inputs, z \in Inputs, y \in LabelsIn :
    TrainSemiC(M, << z, x >>, << << 1, y >> >>, Ch) =
      UNION { TrainC(r.obj, << z >>, << PredictC(r.obj, z) >>, Ch) : r \in TrainC(M, << x >>, << y >>, Ch) }

\* C14
AnswersLearned ==
  Created => \A x \in Inputs : LET w == PredictC(M, x) IN IF DOMAIN M.cl = {} THEN w = <<>> ELSE w \in DOMAIN M.cl
\* C13: the labelled clusters do not matter to the unsupervised answer, and the other way round
Independent ==
  Created => \A x \in Inputs : /\ PredictUns(M, x) = PredictUns([ M EXCEPT !.cl = EmptyFn ], x)
                               /\ OutcomeC(M, x) = OutcomeC([ M EXCEPT !.uns = NoCluster ], x)
                               /\ M.uns.ds # <<>> => \E i \in 1..Len(M.uns.ds) : PredictUns(M, x) = Decimal(i-1)
=============================================================================
