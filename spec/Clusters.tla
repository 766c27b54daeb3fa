------------------------------ MODULE Clusters ------------------------------
(***************************************************************************)
(* ClusWisard: per label a growing cluster of discriminators, and one      *)
(* cluster without label.  A model is a record                             *)
(*   cfg   [a, ms, msden, th, lim, bleach, iz, complete, base, conf,       *)
(*          fields]; minScore is ms/msden                                  *)
(*   cl    label -> cluster; uns: the label-free cluster                   *)
(* A cluster is [n, ds]: entry size and sequence of discriminators         *)
(* (creation order; the library numbers them from 0).                      *)
(***************************************************************************)
EXTENDS Discriminators, Bleaching

NoCluster == [ n |-> 0, ds |-> <<>> ]

RECURSIVE SumSeqTo(_, _)
SumSeqTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeqTo(s, k-1)
SumSeq(s) == SumSeqTo(s, Len(s))

\* match score of votes, as a fraction <<numerator, denominator>>
MatchScore(votes) ==
  LET top == IF votes = <<>> THEN 0 ELSE MaxOf({ votes[r] : r \in 1..Len(votes) })
  IN IF top <= 0 THEN <<0, 1>> ELSE << SumSeq(votes), top * Len(votes) >>

\* score compared with min(1, ms/msden + cnt/th):  -1, 0, 1
LimitOf(cfg, cnt) ==                                  \* the limit as a fraction
  LET num == cfg.ms * cfg.th + cnt * cfg.msden
      den == cfg.msden * cfg.th
  IN IF num >= den THEN <<1, 1>> ELSE <<num, den>>
LimitSign(cfg, score, cnt) == LET t == LimitOf(cfg, cnt) IN FracSign(score[1], score[2], t[1], t[2])

\* The library computes with single precision.  The limit is exact if both of its
\* summands are dyadic, or if it is cut off at 1; otherwise a score equal to the limit (or
\* closer to it than single precision resolves) may be on either side.
RECURSIVE Pow2(_)
Pow2(q) == IF q = 1 THEN TRUE ELSE IF q % 2 = 1 THEN FALSE ELSE Pow2(q \div 2)
Dyadic(p, q) == Pow2(q \div Gcd(q, p))
ExactLimit(cfg, cnt) == LimitOf(cfg, cnt) = <<1, 1>> \/ (Dyadic(cfg.ms, cfg.msden) /\ Dyadic(cnt, cfg.th))
TooClose(cfg, score, cnt) ==
  LET t == LimitOf(cfg, cnt)
      d == Millionths(score[1], score[2]) - Millionths(t[1], t[2])
  IN LimitSign(cfg, score, cnt) # 0 /\ d \in -2..2

\* may (must) a discriminator with this score learn the example?
MayMatch(cfg, score, cnt)  == LimitSign(cfg, score, cnt) >= 0 \/ TooClose(cfg, score, cnt)
MustMatch(cfg, score, cnt) ==
  LET s == LimitSign(cfg, score, cnt)
  IN (s > 0 /\ ~ TooClose(cfg, score, cnt)) \/ (s = 0 /\ ExactLimit(cfg, cnt))

FracLess(p, q) == FracSign(p[1], p[2], q[1], q[2]) < 0
\* the best score, the latest among equals
BestOf(scores) ==
  CHOOSE i \in 1..Len(scores) :
     \A j \in 1..Len(scores) :
        ~ FracLess(scores[i], scores[j]) /\ (j > i => FracLess(scores[j], scores[i]))

\* accepted by every discriminator of the cluster
AcceptsC(K, x) == \A i \in 1..Len(K.ds) : Accepts(K.ds[i], x)

\* May the cluster grow by a discriminator for examples of its entry size?
GrowOk(cfg, n) == ConfigOk(n, cfg.a, cfg.base, <<>>, <<>>)
NewMember(cfg, n, map, x) == Learn(NewD(n, cfg.base, cfg.iz, map), x)

\* The possible results of presenting x to cluster K: the set of [c, ok, said].
\* ms: the addressings of the discriminators of this cluster, as far as they are known.
\* said: what single precision said about limits it can not resolve, <<score, learned>> -> BOOLEAN:
\* within one call the same comparison has the same outcome.
Nothing == EmptyFn
Comparison(score, cnt) == LET g == Gcd(score[1], score[2]) IN << score[1] \div g, score[2] \div g, cnt >>
Present(cfg, K, x, ms, said) ==
  LET k == Len(K.ds)
      mayGrow == /\ k + 1 <= Len(ms)
                 /\ GrowOk(cfg, K.n)
                 /\ Len(x) = K.n
                 /\ ValidShuffle(ms[k+1], K.n, cfg.a, cfg.complete)
                 /\ Accepts(NewD(K.n, cfg.base, cfg.iz, ms[k+1]), x)
      \* a rejected example must be explained by the configuration or by its values
      mayFail == \/ ~ GrowOk(cfg, K.n)
                 \/ Len(x) # K.n
                 \/ \E p \in 1..Len(x) : x[p] < 0 \/ x[p] >= cfg.base
      grown == IF mayGrow
               THEN { [ c |-> [ K EXCEPT !.ds = Append(@, NewMember(cfg, K.n, ms[k+1], x)) ], ok |-> TRUE, said |-> said ] }
               ELSE IF mayFail THEN { [ c |-> K, ok |-> FALSE, said |-> said ] } ELSE {}
  IN IF k = 0 THEN grown
     ELSE IF ~ AcceptsC(K, x) THEN { [ c |-> K, ok |-> FALSE, said |-> said ] }
     ELSE LET scores == TLCEval([ i \in 1..k |-> MatchScore(Votes(K.ds[i], x)) ])
              must == { i \in 1..k : MustMatch(cfg, scores[i], K.ds[i].cnt) }
              may  == { i \in 1..k : MayMatch(cfg, scores[i], K.ds[i].cnt) }
              key  == TLCEval([ i \in may \ must |-> Comparison(scores[i], K.ds[i].cnt) ])
              open == { key[i] : i \in may \ must } \ DOMAIN said
              learnAll(T) == [ K EXCEPT !.ds =
                                TLCEval([ i \in 1..k |-> IF i \in T THEN Learn(K.ds[i], x) ELSE K.ds[i] ]) ]
              does(say) == LET T == must \cup { i \in may \ must : say[key[i]] }
                           IN IF T # {} THEN { [ c |-> learnAll(T), ok |-> TRUE, said |-> say ] }
                              ELSE IF k < cfg.lim THEN { [ r EXCEPT !.said = say ] : r \in grown }
                              ELSE { [ c |-> learnAll({BestOf(scores)}), ok |-> TRUE, said |-> say ] }
          IN UNION { does(say) : say \in { TLCEval(said @@ more) : more \in [ open -> BOOLEAN ] } }

------------------------------------------------------------------------------
(* Supervised training *)

MapsFor(ch, y) == IF y \in DOMAIN ch THEN ch[y] ELSE <<>>
SetCluster(M, y, K) == [ M EXCEPT !.cl = TLCEval([ l \in DOMAIN M.cl \cup {y} |-> IF l = y THEN K ELSE M.cl[l] ]) ]

\* one labelled example.  ch: label -> addressings of the members of its cluster
PresentLabelled(M, x, y, ch, said) ==
  LET K == IF y \in DOMAIN M.cl THEN M.cl[y] ELSE [ n |-> Len(x), ds |-> <<>> ]
  IN { [ obj |-> IF r.ok THEN SetCluster(M, y, r.c) ELSE M, ok |-> r.ok, said |-> r.said ]
       : r \in Present(M.cfg, K, x, MapsFor(ch, y), said) }

\* the examples number order[i], order[i+1], ... of xs, under the labels ys
\* (R: the possible results so far)
Start(M) == { [ obj |-> M, ok |-> TRUE, said |-> Nothing ] }
Results(R) == { [ obj |-> r.obj, ok |-> r.ok ] : r \in R }
RECURSIVE PresentAll(_, _, _, _, _, _)
PresentAll(R, xs, ys, order, ch, i) ==
  IF i > Len(order) THEN R
  ELSE PresentAll(UNION { IF r.ok THEN PresentLabelled(r.obj, xs[order[i]], ys[order[i]], ch, r.said) ELSE { r } : r \in R },
                  xs, ys, order, ch, i+1)

ConfidenceOkC(M, n) == M.cfg.conf <= NumberOfRams(n, M.cfg.a, M.cfg.complete)

TrainC(M, xs, ys, ch) ==
  IF Len(xs) # Len(ys) THEN { [ obj |-> M, ok |-> FALSE ] }
  ELSE IF xs = <<>> THEN { [ obj |-> M, ok |-> TRUE ] }
  ELSE IF ~ ConfidenceOkC(M, Len(xs[1])) THEN { [ obj |-> M, ok |-> FALSE ] }
  ELSE Results(PresentAll(Start(M), xs, ys, [ i \in 1..Len(xs) |-> i ], ch, 1))

------------------------------------------------------------------------------
(* Classification: every discriminator is a candidate, named label::index  *)

Key(label, i) == label \o <<58, 58>> \o Decimal(i - 1)
Members(M) == UNION { { <<l, i>> : i \in 1..Len(M.cl[l].ds) } : l \in DOMAIN M.cl }
Keyed(M) == { << Key(m[1], m[2]), m[1], m[2] >> : m \in Members(M) }
ClassifyOkC(M, x) == \A l \in DOMAIN M.cl : AcceptsC(M.cl[l], x)

ScoresC(M, x) ==
  The({ Scores(TLCEval([ k \in { q[1] : q \in keyed } |->
                           LET q == CHOOSE q \in keyed : q[1] = k IN Votes(M.cl[q[2]].ds[q[3]], x) ]),
               M.cfg.bleach, M.cfg.conf)
        : keyed \in { Keyed(M) } })

\* the label of the cluster whose member has this key
LabelOf(keyed, key) == IF key = <<>> THEN <<>> ELSE (CHOOSE q \in keyed : q[1] = key)[2]
PredictC(M, x) == LabelOf(Keyed(M), Winner(ScoresC(M, x)))

OutcomeC(M, x) ==
  LET s == ScoresC(M, x)
      w == Winner(s)
  IN [ lab   |-> LabelOf(Keyed(M), w),
       score |-> Best(s),
       rams  |-> IF DOMAIN s = {} THEN 1 ELSE NumberOfRams(Len(x), M.cfg.a, M.cfg.complete),
       lead  |-> Best(s) - RunnerUp(s),
       total |-> Total(s),
       cands |-> LET o == SortTexts(DOMAIN s)
                 IN The({ [ i \in 1..Len(o) |-> << LabelOf(keyed, o[i]), s[o[i]] >> ] : keyed \in { Keyed(M) } }) ]

------------------------------------------------------------------------------
(* Semi-supervised training: given: set of <<index, label>>, index from 0  *)

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Ascending(S \ {m})

\* examples without label, one after the other, to the cluster predicted at that moment
RECURSIVE PresentPredicted(_, _, _, _, _)
PresentPredicted(R, xs, order, ch, i) ==
  IF i > Len(order) THEN R
  ELSE LET x == xs[order[i]]
           step(r) == IF ClassifyOkC(r.obj, x) THEN PresentLabelled(r.obj, x, PredictC(r.obj, x), ch, r.said)
                      ELSE { [ r EXCEPT !.ok = FALSE ] }
       IN PresentPredicted(UNION { IF r.ok THEN step(r) ELSE { r } : r \in R }, xs, order, ch, i+1)

TrainSemiC(M, xs, given, ch) ==
  LET n    == Len(xs)
      lab  == FnOfPairs(given)                                   \* index from 0 -> label
      ys   == [ i \in 1..n |-> IF (i-1) \in DOMAIN lab THEN lab[i-1] ELSE <<>> ]
      with == { i \in 1..n : (i-1) \in DOMAIN lab }
  IN IF Len(given) > n THEN { [ obj |-> M, ok |-> FALSE ] }
     ELSE IF n = 0 THEN { [ obj |-> M, ok |-> TRUE ] }
     ELSE IF ~ ConfidenceOkC(M, Len(xs[1])) THEN { [ obj |-> M, ok |-> FALSE ] }
     ELSE IF with = {} THEN { [ obj |-> M, ok |-> FALSE ] }
     ELSE Results(PresentPredicted(PresentAll(Start(M), xs, ys, Ascending(with), ch, 1),
                                   xs, Ascending((1..n) \ with), ch, 1))

------------------------------------------------------------------------------
(* Unsupervised training and classification *)

RECURSIVE PresentUns(_, _, _, _)
PresentUns(R, xs, ms, i) ==
  IF i > Len(xs) THEN R
  ELSE PresentUns(UNION { IF r.ok THEN { [ obj |-> [ r.obj EXCEPT !.uns = q.c ], ok |-> q.ok, said |-> q.said ]
                                         : q \in Present(r.obj.cfg, r.obj.uns, xs[i], ms, r.said) }
                          ELSE { r } : r \in R }, xs, ms, i+1)

TrainUnsC(M, xs, ms) ==
  IF xs = <<>> THEN { [ obj |-> M, ok |-> TRUE ] }
  ELSE LET M0 == IF M.uns.ds = <<>> THEN [ M EXCEPT !.uns = [ n |-> Len(xs[1]), ds |-> <<>> ] ] ELSE M
       IN { IF r.obj.uns.ds = <<>> THEN [ r EXCEPT !.obj.uns = NoCluster ] ELSE r
            : r \in Results(PresentUns(Start(M0), xs, ms, 1)) }

ClassifyOkUns(M, x) == AcceptsC(M.uns, x)
PredictUns(M, x) ==
  Winner(Scores(TLCEval([ t \in { Decimal(i-1) : i \in 1..Len(M.uns.ds) } |->
                    Votes(M.uns.ds[CHOOSE i \in 1..Len(M.uns.ds) : Decimal(i-1) = t], x) ]),
                M.cfg.bleach, 1))

------------------------------------------------------------------------------
LearnedBy(K) == [ i \in 1..Len(K.ds) |-> K.ds[i].cnt ]
LearnedC(M) == [ l \in DOMAIN M.cl |-> LearnedBy(M.cl[l]) ]
LearnedUns(M) == LearnedBy(M.uns)
ClusterImages(K) == [ i \in 1..Len(K.ds) |-> MentalImage(K.ds[i]) ]
NewC(cfg) == [ cfg |-> cfg, cl |-> EmptyFn, uns |-> NoCluster ]
ForgetC(M) == NewC(M.cfg)
ParametersOkC(ms, msden, th, lim) == ms >= 0 /\ ms <= msden /\ th >= 1 /\ lim >= 1
=============================================================================
