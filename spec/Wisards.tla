------------------------------ MODULE Wisards ------------------------------
(***************************************************************************)
(* The WiSARD classifier.  A model is a record                             *)
(*   cfg   [a, bleach, iz, complete, base, conf, map, idx, fields]         *)
(*         map: label -> addressing for configured labels, idx: <<>> if    *)
(*         not given, fields: the degrees classify reports in Python       *)
(*   cls   label -> discriminator, for every class seen so far             *)
(* Operations that may fail half way return [obj, ok].                     *)
(***************************************************************************)
EXTENDS Discriminators, Bleaching

ConfiguredMap(W, label) == IF label \in DOMAIN W.cfg.map THEN W.cfg.map[label] ELSE <<>>

\* can a class for examples of size n be created?
ClassOk(W, label, n) == ConfigOk(n, W.cfg.a, W.cfg.base, W.cfg.idx, ConfiguredMap(W, label))

\* the discriminator of a class learned for the first time; map: the addressing it got
NewClass(W, n, map) == NewD(n, W.cfg.base, W.cfg.iz, map)

\* one example.  ch: label -> addressing picked if the class is new
LearnOk(W, x, y, ch) ==
  IF y \in DOMAIN W.cls THEN Accepts(W.cls[y], x)
  ELSE /\ ClassOk(W, y, Len(x))
       /\ y \in DOMAIN ch
       /\ AddressingOk(ch[y], Len(x), W.cfg.a, W.cfg.complete, W.cfg.idx, ConfiguredMap(W, y))
       /\ Accepts(NewClass(W, Len(x), ch[y]), x)
LearnOne(W, x, y, ch) ==
  LET D == IF y \in DOMAIN W.cls THEN W.cls[y] ELSE NewClass(W, Len(x), ch[y])
  IN [ W EXCEPT !.cls = TLCEval([ l \in DOMAIN W.cls \cup {y} |-> IF l = y THEN Learn(D, x) ELSE W.cls[l] ]) ]

\* A new class that the library rejects leaves no class behind.  Without an observed
\* addressing (y \notin DOMAIN ch) the rejection must be explained by the configuration
\* or by values that no addressing would accept.
Rejectable(W, x, y) ==
  IF y \in DOMAIN W.cls THEN ~ Accepts(W.cls[y], x)
  ELSE \/ ~ ClassOk(W, y, Len(x))
       \/ LET m == ConfiguredMap(W, y)
              bad(p) == x[p+1] < 0 \/ x[p+1] >= W.cfg.base
          IN IF m # <<>> THEN \E p \in RangeOf(ConcatAll(m)) : bad(p)
             ELSE IF W.cfg.idx # <<>>
                  THEN \E p \in RangeOf(ConcatAll(IndexMap(W.cfg.idx, Len(x), W.cfg.a))) : bad(p)
             ELSE \E p \in 0..(Len(x)-1) : bad(p)

\* examples i, i+1, ... in order; a rejected one stops, the earlier ones stay learned.
\* The set of possible [obj, ok] (empty: what was observed of ch is impossible).
RECURSIVE LearnFrom(_, _, _, _, _)
LearnFrom(W, xs, ys, ch, i) ==
  IF i > Len(xs) THEN { [ obj |-> W, ok |-> TRUE ] }
  ELSE IF LearnOk(W, xs[i], ys[i], ch)
       THEN LearnFrom(LearnOne(W, xs[i], ys[i], ch), xs, ys, ch, i+1)
  ELSE IF Rejectable(W, xs[i], ys[i]) THEN { [ obj |-> W, ok |-> FALSE ] }
  ELSE {}

ConfidenceOk(W, n) == W.cfg.conf <= NumberOfRams(n, W.cfg.a, W.cfg.complete)

TrainW(W, xs, ys, ch) ==
  IF Len(xs) # Len(ys) THEN { [ obj |-> W, ok |-> FALSE ] }
  ELSE IF xs = <<>> THEN { [ obj |-> W, ok |-> TRUE ] }
  ELSE IF ~ ConfidenceOk(W, Len(xs[1])) THEN { [ obj |-> W, ok |-> FALSE ] }
  ELSE LearnFrom(W, xs, ys, ch, 1)

\* one example given k >= 1 times
TrainTimesW(W, x, y, k, ch) ==
  IF ~ ConfidenceOk(W, Len(x)) THEN { [ obj |-> W, ok |-> FALSE ] }
  ELSE { IF r.ok THEN [ r EXCEPT !.obj.cls[y] = LearnTimes(@, x, k - 1) ] ELSE r
         : r \in LearnFrom(W, <<x>>, <<y>>, ch, 1) }

\* a data set: entries [x, y], y = <<>> is an entry without label, which training rejects
TrainSetW(W, es, ch) ==
  LET k == IF \E i \in 1..Len(es) : es[i].y = <<>>
           THEN MinOf({ i \in 1..Len(es) : es[i].y = <<>> }) - 1 ELSE Len(es)
      xs == [ i \in 1..k |-> es[i].x ]
      ys == [ i \in 1..k |-> es[i].y ]
  IN IF es = <<>> THEN { [ obj |-> W, ok |-> TRUE ] }
     ELSE IF ~ ConfidenceOk(W, Len(es[1].x)) THEN { [ obj |-> W, ok |-> FALSE ] }
     ELSE { [ r EXCEPT !.ok = r.ok /\ k = Len(es) ] : r \in LearnFrom(W, xs, ys, ch, 1) }

\* untraining: unknown labels are ignored
UntrainOk(W, x, y) == y \in DOMAIN W.cls => Accepts(W.cls[y], x)
UntrainOne(W, x, y) == IF y \in DOMAIN W.cls THEN [ W EXCEPT !.cls[y] = Unlearn(@, x) ] ELSE W
RECURSIVE UntrainFrom(_, _, _, _)
UntrainFrom(W, xs, ys, i) ==
  IF i > Len(xs) THEN [ obj |-> W, ok |-> TRUE ]
  ELSE IF UntrainOk(W, xs[i], ys[i]) THEN UntrainFrom(UntrainOne(W, xs[i], ys[i]), xs, ys, i+1)
       ELSE [ obj |-> W, ok |-> FALSE ]
UntrainW(W, xs, ys) ==
  IF Len(xs) # Len(ys) THEN [ obj |-> W, ok |-> FALSE ] ELSE UntrainFrom(W, xs, ys, 1)

\* the same of examples that were not learned, or not any more
RECURSIVE OverUntrainFrom(_, _, _, _)
OverUntrainFrom(W, xs, ys, i) ==
  IF i > Len(xs) THEN { [ obj |-> W, ok |-> TRUE ] }
  ELSE IF ~ UntrainOk(W, xs[i], ys[i]) THEN { [ obj |-> W, ok |-> FALSE ] }
  ELSE IF ys[i] \in DOMAIN W.cls
       THEN UNION { OverUntrainFrom([ W EXCEPT !.cls[ys[i]] = D ], xs, ys, i+1) : D \in OverUnlearn(W.cls[ys[i]], xs[i]) }
       ELSE OverUntrainFrom(W, xs, ys, i+1)
OverUntrainW(W, xs, ys) ==
  IF Len(xs) # Len(ys) THEN { [ obj |-> W, ok |-> FALSE ] } ELSE OverUntrainFrom(W, xs, ys, 1)

------------------------------------------------------------------------------
(* Classification *)

AllVotes(W, x) == TLCEval([ l \in DOMAIN W.cls |-> Votes(W.cls[l], x) ])
ClassifyOkW(W, x) == \A l \in DOMAIN W.cls : Accepts(W.cls[l], x)

\* everything classification is allowed to report about x
OutcomeW(W, x) ==
  LET s == Scores(AllVotes(W, x), W.cfg.bleach, W.cfg.conf)
      w == Winner(s)
  IN [ lab   |-> w,
       score |-> Best(s),
       rams  |-> IF DOMAIN s = {} THEN 1 ELSE Len(W.cls[w].map),
       lead  |-> Best(s) - RunnerUp(s),
       total |-> Total(s),
       cands |-> LET o == SortTexts(DOMAIN s) IN TLCEval([ i \in 1..Len(o) |-> << o[i], s[o[i]] >> ]) ]

MentalImagesW(W) == [ l \in DOMAIN W.cls |-> MentalImage(W.cls[l]) ]

NewW(cfg) == [ cfg |-> cfg, cls |-> EmptyFn ]
ForgetW(W) == [ W EXCEPT !.cls = [ l \in DOMAIN W.cls |-> Forget(W.cls[l]) ] ]
=============================================================================
