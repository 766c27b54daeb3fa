------------------------------ MODULE MC_Memory ------------------------------
(***************************************************************************)
(* One discriminator, every configuration of a small scope, every history  *)
(* of training and untraining.  The history variable learned is the bag of *)
(* the examples learned and not untrained: the answers of the model must   *)
(* be functions of it (C01, C03, C07, C08), whatever the addressing the    *)
(* library picked (C02).                                                   *)
(***************************************************************************)
EXTENDS Invariants, TLC

CONSTANTS N, A, Bases, MaxLearned, MaxTimes

VARIABLE learned
mvars == << objs, snaps, ret, learned >>

Inputs(b) == [ 1..N -> 0..(b-1) ]
O == "d"
D == objs[O].m

\* addressings: whatever ValidShuffle allows (complete or not), some mappings with RAMs of different
\* sizes, overlapping and repeated positions, no RAM at all
AllSeqs(n) == [ 1..n -> 0..(N-1) ]
Shuffles(complete) ==
  { m \in [ 1..NumberOfRams(N, A, complete) -> AllSeqs(A) ] : ValidShuffle(m, N, A, complete) }
Mappings == { << <<0>>, <<1, 1>> >>, << <<N-1, 0>>, <<0, N-1>> >>, << <<>>, <<0>> >> }
Opts == { [ iz |-> iz, complete |-> c, base |-> b, idx |-> <<>>, map |-> m ] :
            iz \in BOOLEAN, c \in BOOLEAN, b \in Bases, m \in Mappings \cup { <<>> } }

MCInit == Init /\ learned = EmptyFn
Created == O \in DOMAIN objs

New == /\ ~ Created
       /\ \E opt \in Opts :
            \E picked \in IF opt.map # <<>> THEN { opt.map } ELSE Shuffles(opt.complete) :
               DNew(O, A, N, opt, picked)
       /\ learned' = EmptyFn

Size(b) == SumOf(DOMAIN b, b)

Train == /\ Created /\ Size(learned) < MaxLearned
         /\ \E x \in Inputs(D.base) :
              DTrain(O, <<x>>) /\ learned' = PutCell(learned, x, 1 + (IF x \in DOMAIN learned THEN learned[x] ELSE 0))
TrainTimes == /\ Created /\ Size(learned) < MaxLearned
              /\ \E x \in Inputs(D.base), k \in 2..MaxTimes :
                   DTrainTimes(O, x, k)
                   /\ learned' = PutCell(learned, x, k + (IF x \in DOMAIN learned THEN learned[x] ELSE 0))
Untrain == /\ Created
           /\ \E x \in DOMAIN learned :
                /\ learned[x] > 0
                /\ DUntrain(O, x) /\ learned' = PutCell(learned, x, learned[x] - 1)
\* rejected: a wrong size, a value that is no digit
Reject == /\ Created
          /\ \E x \in { [ i \in 1..(N-1) |-> 0 ], [ i \in 1..N |-> D.base ], [ i \in 1..N |-> -1 ] } :
               DTrain(O, <<x>>)
          /\ UNCHANGED learned

MCNext == New \/ Train \/ TrainTimes \/ Untrain \/ Reject
MCSpec == MCInit /\ [][MCNext]_mvars

------------------------------------------------------------------------------
Agree(x, y, r) == \A i \in 1..Len(D.map[r]) : x[D.map[r][i]+1] = y[D.map[r][i]+1]
CountWhere(P(_)) == LET S == { y \in DOMAIN learned : P(y) } IN SumOf(S, learned)

\* C01, C03, C07: a RAM answers the number of examples that agree on all its positions
ExactMemory ==
  Created => \A x \in Inputs(D.base) : \A r \in 1..Len(D.map) :
    LET blank == \A i \in 1..Len(D.map[r]) : x[D.map[r][i]+1] = 0
        agree(y) == Agree(x, y, r)
    IN Vote(D, r, x) = IF D.iz /\ blank THEN 0 ELSE CountWhere(agree)

\* C08
MentalExact ==
  Created => LET img == MentalImage(D) IN
    /\ Len(img) = D.n
    /\ \A p \in 0..(D.n - 1) :
         LET slots == { s \in (1..Len(D.map)) \X (1..3) : s[2] <= Len(D.map[s[1]]) /\ D.map[s[1]][s[2]] = p }
             nonzero(y) == y[p+1] > 0
         IN img[p+1] = Cardinality(slots) * CountWhere(nonzero)

\* C07: the contents are those of a discriminator that only saw what is still learned
RECURSIVE LearnAll(_)
LearnAll(S) ==
  IF S = {} THEN Forget(D)
  ELSE LET y == CHOOSE y \in S : TRUE IN LearnTimes(LearnAll(S \ {y}), y, learned[y])
AsIfNeverPresented ==
  Created => LET F == LearnAll({ y \in DOMAIN learned : learned[y] > 0 })
             IN Contents(F) = Contents(D) /\ F.cnt = D.cnt

\* C02
Addressed ==
  Created => /\ \A r \in 1..Len(D.map) : \A i \in 1..Len(D.map[r]) : D.map[r][i] \in 0..(N-1)
             /\ D.map \notin Mappings =>
                  LET flat == ConcatAll(D.map)
                  IN Len(flat) - Cardinality(RangeOf(flat)) \in { 0, Len(flat) - N }

\* C21: what was rejected left no trace
RejectedStep == ~ ret'.ok => (UNCHANGED objs \/ (O \in DOMAIN objs' /\ O \notin DOMAIN objs))
RejectedUntouched == [][RejectedStep]_mvars
\* C02: nothing but creation sets the addressing
AddressingKept == [][Created => objs'[O].m.map = D.map]_mvars
Bounded == Cardinality(DOMAIN learned) <= MaxLearned
NoRet == << objs, learned >>
=============================================================================
