------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* wisardpkg as one transition system.  The state is everything a program  *)
(* using the library holds: the live objects, the snapshots (texts and     *)
(* files) that were taken of them, and the outcome of the last call.       *)
(* Every public call is one named action; a call is atomic, because the    *)
(* library is sequential: its linearization point is its return.           *)
(*                                                                         *)
(* objs   id -> [k, m]  kind and model of every live object                *)
(*        kinds: D discriminator, W wisard, C cluswisard, B bininput,      *)
(*        S dataset, H ramdatahandle, Y synthesizer, K kernelcanvas,       *)
(*        R ram, U cluster                                                 *)
(* snaps  id -> [k, m, file, there]  what was saved; file: contents are in *)
(*        data files, there: the files still exist                         *)
(* ret    [ok, v]  did the last call return (or raise), and what           *)
(*                                                                         *)
(* Choices the library makes at random (addressings) are parameters of the *)
(* actions, constrained by AddressingOk / ValidShuffle.                    *)
(***************************************************************************)
EXTENDS Wisards, Clusters, Data, Base64, Canvas, Formats

VARIABLES objs, snaps, ret
vars == << objs, snaps, ret >>

Init == objs = EmptyFn /\ snaps = EmptyFn /\ ret = [ ok |-> TRUE, v |-> <<>> ]

Live(o, k) == o \in DOMAIN objs /\ objs[o].k = k
Model(o) == objs[o].m

Put(f, i, v) == TLCEval([ j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j] ])
SetObj(o, k, m) == objs' = Put(objs, o, [ k |-> k, m |-> m ])

Return(v) == ret' = [ ok |-> TRUE, v |-> v ]
Done      == Return(<<>>)
Raise     == ret' = [ ok |-> FALSE, v |-> <<>> ]

\* a query: nothing changes, whatever it is asked
Query(ok, v) == /\ UNCHANGED << objs, snaps >>
                /\ IF ok THEN Return(v) ELSE Raise
\* a constructor
Create(o, k, ok, m) == /\ UNCHANGED snaps
                       /\ IF ok THEN SetObj(o, k, m) /\ Done ELSE UNCHANGED objs /\ Raise
\* a call that changes at most the object it is made on; R: the possible [obj, ok]
Change(o, R) == /\ UNCHANGED snaps
                /\ \E r \in R :
                     /\ SetObj(o, objs[o].k, r.obj)
                     /\ IF r.ok THEN Done ELSE Raise
Did(m)    == { [ obj |-> m, ok |-> TRUE ] }
Refuse(o) == { [ obj |-> Model(o), ok |-> FALSE ] }

------------------------------------------------------------------------------
(* Discriminator *)

\* opt: [iz, complete, base, idx, map]; picked: the addressing it got
DNew(o, a, n, opt, picked) ==
  LET ok == ConfigOk(n, a, opt.base, opt.idx, opt.map)
  IN /\ ok => AddressingOk(picked, n, a, opt.complete, opt.idx, opt.map)
     /\ Create(o, "D", ok, NewD(n, opt.base, opt.iz, picked))

RECURSIVE DLearnFrom(_, _, _)
DLearnFrom(D, xs, i) ==
  IF i > Len(xs) THEN [ obj |-> D, ok |-> TRUE ]
  ELSE IF Accepts(D, xs[i]) THEN DLearnFrom(Learn(D, xs[i]), xs, i+1)
  ELSE [ obj |-> D, ok |-> FALSE ]

DTrain(o, xs) == Live(o, "D") /\ Change(o, { DLearnFrom(Model(o), xs, 1) })
\* the example x given k times
DTrainTimes(o, x, k) ==
  Live(o, "D") /\ Change(o, IF Accepts(Model(o), x) THEN Did(LearnTimes(Model(o), x, k)) ELSE Refuse(o))
DUntrain(o, x) == Live(o, "D") /\ Change(o, IF Accepts(Model(o), x) THEN Did(Unlearn(Model(o), x)) ELSE Refuse(o))
DOverUntrain(o, x) ==
  Live(o, "D") /\ Change(o, IF Accepts(Model(o), x) THEN { [ obj |-> D, ok |-> TRUE ] : D \in OverUnlearn(Model(o), x) } ELSE Refuse(o))
DClassify(o, xs) == LET D == Model(o) IN
  Live(o, "D") /\ Query(\A i \in 1..Len(xs) : Accepts(D, xs[i]), [ i \in 1..Len(xs) |-> Votes(D, xs[i]) ])
DMental(o) == Live(o, "D") /\ Query(TRUE, MentalImage(Model(o)))
DSizes(o)  == Live(o, "D") /\ Query(TRUE, << Model(o).cnt, Len(Model(o).map) >>)

\* without RAMs (C++)
DBare(o, n) == Create(o, "D", TRUE, NewD(n, 2, FALSE, <<>>))

------------------------------------------------------------------------------
(* Wisard *)

WNew(o, cfg) == Create(o, "W", TRUE, NewW(cfg))
WTrain(o, xs, ys, ch) == Live(o, "W") /\ Change(o, TrainW(Model(o), xs, ys, ch))
WTrainTimes(o, x, y, k, ch) == Live(o, "W") /\ Change(o, TrainTimesW(Model(o), x, y, k, ch))
WTrainSet(o, d, ch) == Live(o, "W") /\ Live(d, "S") /\ Change(o, TrainSetW(Model(o), Model(d), ch))
WUntrain(o, xs, ys) == Live(o, "W") /\ Change(o, { UntrainW(Model(o), xs, ys) })
WOverUntrain(o, xs, ys) == Live(o, "W") /\ Change(o, OverUntrainW(Model(o), xs, ys))
WClassify(o, xs) == LET W == Model(o) IN
  Live(o, "W") /\ Query(\A i \in 1..Len(xs) : ClassifyOkW(W, xs[i]), [ i \in 1..Len(xs) |-> OutcomeW(W, xs[i]) ])
WClassifySet(o, d) == Live(d, "S") /\ WClassify(o, [ i \in 1..Len(Model(d)) |-> Model(d)[i].x ])
WMental(o) == Live(o, "W") /\ Query(TRUE, MentalImagesW(Model(o)))

------------------------------------------------------------------------------
(* ClusWisard *)

CNew(o, cfg) == Create(o, "C", ParametersOkC(cfg.ms, cfg.msden, cfg.th, cfg.lim), NewC(cfg))
\* said: how many examples the discriminators say they learned, if they say so (ToldNothing).  It
\* only tells apart what single precision leaves open; whoever says something impossible is ignored.
ToldNothing == << >>
Told(R, said, learned(_)) ==
  LET S == IF said = ToldNothing THEN R ELSE { r \in R : learned(r.obj) = said[1] }
  IN IF S = {} THEN R ELSE S
CTrain(o, xs, ys, ch, said) == Live(o, "C") /\ Change(o, Told(TrainC(Model(o), xs, ys, ch), said, LearnedC))
CTrainSemi(o, xs, given, ch, said) == Live(o, "C") /\ Change(o, Told(TrainSemiC(Model(o), xs, given, ch), said, LearnedC))
CTrainUns(o, xs, picked, said) == Live(o, "C") /\ Change(o, Told(TrainUnsC(Model(o), xs, picked), said, LearnedUns))
CClassify(o, xs) == LET M == Model(o) IN
  Live(o, "C") /\ Query(\A i \in 1..Len(xs) : ClassifyOkC(M, xs[i]), [ i \in 1..Len(xs) |-> OutcomeC(M, xs[i]) ])
CClassifyUns(o, xs) == LET M == Model(o) IN
  Live(o, "C") /\ Query(\A i \in 1..Len(xs) : ClassifyOkUns(M, xs[i]), [ i \in 1..Len(xs) |-> PredictUns(M, xs[i]) ])
CMental(o, y) == LET M == Model(o) IN
  Live(o, "C") /\ Query(TRUE, IF y \in DOMAIN M.cl THEN ClusterImages(M.cl[y]) ELSE <<>>)
CMentals(o) == LET M == Model(o) IN
  Live(o, "C") /\ Query(TRUE, [ l \in DOMAIN M.cl |-> ClusterImages(M.cl[l]) ])

------------------------------------------------------------------------------
(* Snapshots.  mode: "json" text with contents, "config" text without,     *)
(* "file" text that refers to data files.                                  *)

Emptied(k, m) == IF k = "D" THEN Forget(m) ELSE IF k = "W" THEN ForgetW(m) ELSE ForgetC(m)

HasNul(t) == \E i \in 1..Len(t) : t[i] = 0
\* data files are named prefix ... .wdpkg
DataFileSuffix == <<46, 119, 100, 112, 107, 103>>
DataFileName(prefix, t) == IsPrefix(prefix, t) /\ IsSuffix(DataFileSuffix, t) /\ Len(t) > Len(prefix) + Len(DataFileSuffix)
\* labels become parts of file names
NameLabels(k, m) == IF k = "W" THEN DOMAIN m.cls ELSE IF k = "C" THEN DOMAIN m.cl ELSE {}
\* nothing to write: no discriminator
NoContents(k, m) == IF k = "D" THEN FALSE ELSE IF k = "W" THEN m.cls = EmptyFn
                    ELSE m.cl = EmptyFn /\ m.uns.ds = <<>>

\* writable: can files with this prefix be completely written
\* files: the names of the data files it wrote
Save(o, s, mode, writable, prefix, files) ==
  /\ \A i \in 1..Len(files) : DataFileName(prefix, files[i]) /\ \A j \in 1..(i-1) : files[i] # files[j]
  /\ o \in DOMAIN objs /\ objs[o].k \in {"D", "W", "C"}
  /\ UNCHANGED objs
  /\ LET k == objs[o].k
         m == Model(o)
         ok == \/ mode # "file"
               \/ NoContents(k, m)
               \/ writable /\ \A l \in NameLabels(k, m) : ~ HasNul(l)
     IN IF ok
        THEN /\ snaps' = Put(snaps, s, [ k |-> k, m |-> IF mode = "config" THEN Emptied(k, m) ELSE m,
                                         file |-> mode = "file" /\ ~ NoContents(k, m), there |-> TRUE ])
             /\ Done
        ELSE UNCHANGED snaps /\ Raise

Loadable(s, k) == s \in DOMAIN snaps /\ snaps[s].k = k /\ (snaps[s].file => snaps[s].there)
Load(o, s) ==
  /\ s \in DOMAIN snaps
  /\ Create(o, snaps[s].k, Loadable(s, snaps[s].k), snaps[s].m)

\* somebody removes the data files of a snapshot
RemoveFiles(s) == /\ s \in DOMAIN snaps
                  /\ snaps' = [ snaps EXCEPT ![s].there = FALSE ]
                  /\ UNCHANGED objs /\ Done

\* a copy (C++), and the end of an object
Copy(o, p)  == p \in DOMAIN objs /\ Create(o, objs[p].k, TRUE, Model(p))
Destroy(o)  == /\ o \in DOMAIN objs
               /\ objs' = [ j \in DOMAIN objs \ {o} |-> objs[j] ]
               /\ UNCHANGED snaps /\ Done

------------------------------------------------------------------------------
(* BinInput *)

BNewSize(o, n) == Create(o, "B", n >= 0, [ i \in 1..n |-> 0 ])
BNewBits(o, x) == Create(o, "B", BitsOk(x), x)
BNewData(o, p) == Live(p, "B") /\ Create(o, "B", TRUE, Model(p))      \* from the text p.data()
BSet(o, i, v) == LET b == Model(o) IN
  Live(o, "B") /\ Change(o, IF i >= 0 /\ i < Len(b) /\ IsBit(v) THEN Did([ b EXCEPT ![i+1] = v ]) ELSE Refuse(o))
BGet(o, i) == LET b == Model(o) IN
  Live(o, "B") /\ Query(i >= 0 /\ i < Len(b), IF i >= 0 /\ i < Len(b) THEN b[i+1] ELSE 0)
BBits(o) == Live(o, "B") /\ Query(TRUE, Model(o))
BSize(o) == Live(o, "B") /\ Query(TRUE, Len(Model(o)))

------------------------------------------------------------------------------
(* DataSet *)

SNew(o) == Create(o, "S", TRUE, <<>>)
SAdd(o, x, y) == Live(o, "S") /\ Change(o, IF BitsOk(x) THEN Did(Append(Model(o), [ x |-> x, y |-> y ])) ELSE Refuse(o))
SAddBin(o, b, y) == Live(b, "B") /\ SAdd(o, Model(b), y)
SGet(o, i) == LET es == Model(o) IN
  Live(o, "S") /\ Query(i >= 0 /\ i < Len(es), IF i >= 0 /\ i < Len(es) THEN es[i+1].x ELSE <<>>)
SLabel(o, i) == LET es == Model(o)
                    ok == i >= 0 /\ i < Len(es) /\ es[i+1].y # <<>> IN
  Live(o, "S") /\ Query(ok, IF ok THEN es[i+1].y ELSE <<>>)
SSize(o) == Live(o, "S") /\ Query(TRUE, Len(Model(o)))
\* the file is named by its prefix s: saving again replaces it
SSave(o, s, writable) ==
  /\ Live(o, "S") /\ UNCHANGED objs
  /\ IF writable
     THEN snaps' = Put(snaps, s, [ k |-> "S", m |-> Model(o), file |-> TRUE, there |-> TRUE ]) /\ Done
     ELSE UNCHANGED snaps /\ Raise
\* a file that does not exist or does not have the right extension is refused
SLoad(o, s, named) ==
  IF named /\ Loadable(s, "S") THEN Create(o, "S", TRUE, snaps[s].m) ELSE Create(o, "S", FALSE, <<>>)

------------------------------------------------------------------------------
(* RAMDataHandle *)

\* the RAM contents of a discriminator (of a class of a Wisard); an empty text is one empty RAM
HNewFrom(o, p, label, H) ==
  /\ p \in DOMAIN objs
  /\ LET D == IF objs[p].k = "D" THEN Model(p) ELSE Model(p).cls[label]
     IN HandleLike(H, D) /\ Create(o, "H", TRUE, H)
HNewEmpty(o) == Create(o, "H", TRUE, << NoRam >>)
HNewData(o, p) == Live(p, "H") /\ Create(o, "H", TRUE, Model(p))                      \* from p.data()
HNewRam(o, p, r) == Live(p, "H") /\ Create(o, "H", TRUE, << RamAt(Model(p), r) >>)    \* from p.data(r)
\* from the data file of a snapshot of a discriminator
HNewFile(o, s, H) ==
  /\ s \in DOMAIN snaps /\ snaps[s].k = "D" /\ snaps[s].file
  /\ IF snaps[s].there THEN HandleLike(H, snaps[s].m) /\ Create(o, "H", TRUE, H) ELSE Create(o, "H", FALSE, <<>>)
\* its own file (C++), named by its prefix
HSave(o, s, writable) ==
  /\ Live(o, "H") /\ UNCHANGED objs
  /\ IF writable
     THEN snaps' = Put(snaps, s, [ k |-> "H", m |-> Model(o), file |-> TRUE, there |-> TRUE ]) /\ Done
     ELSE UNCHANGED snaps /\ Raise
HLoad(o, s) == Loadable(s, "H") /\ Create(o, "H", TRUE, snaps[s].m)
HSet(o, r, a, v) == Live(o, "H") /\ Change(o, IF r >= 0 THEN Did(SetCell(Model(o), r, a, v)) ELSE Refuse(o))
HGet(o, r, a) == Live(o, "H") /\ Query(TRUE, CellOf(Model(o), r, a))
HRam(o, r) == Live(o, "H") /\ Query(TRUE, RamPairs(RamAt(Model(o), r)))
HData(o) == Live(o, "H") /\ Query(TRUE, [ r \in 1..Len(Model(o)) |-> RamPairs(Model(o)[r]) ])
HCompare(o, p) == Live(o, "H") /\ Live(p, "H") /\ Query(TRUE, Model(o) = Model(p))

------------------------------------------------------------------------------
(* Synthesizer *)

YNew(o, img) == Create(o, "Y", TRUE, img)
\* from the mental image of a class (of the first member of a cluster)
YNewFrom(o, p, label) ==
  /\ p \in DOMAIN objs
  /\ LET m == Model(p)
     IN Create(o, "Y", TRUE, IF objs[p].k = "D" THEN MentalImage(m)
                             ELSE IF objs[p].k = "W" THEN MentalImage(m.cls[label])
                             ELSE MentalImage(m.cl[label].ds[1]))
YMake(o, v) == Live(o, "Y") /\ DrawOk(Model(o), v) /\ Query(TRUE, v)
\* n draws; cs: per position the number of ones
YMakeMany(o, n, cs) == Live(o, "Y") /\ CountsOk(Model(o), cs, n) /\ Query(TRUE, cs)

------------------------------------------------------------------------------
(* KernelCanvas: kernels are picked at random by the library *)

KNew(o, cfg, kernels) ==
  LET ok == CanvasOk(cfg)
  IN /\ ok => KernelsOk(cfg, kernels)
     /\ Create(o, "K", ok, [ cfg |-> cfg, kernels |-> kernels ])
KTransform(o, seq, out) ==
  LET k == Model(o)
      ok == \A i \in 1..Len(seq) : Len(seq[i]) = k.cfg.dim
  IN /\ Live(o, "K")
     /\ ok => TransformOk(k.cfg, k.kernels, seq, out)
     /\ Query(ok, out)

------------------------------------------------------------------------------
(* Base64 (C++) *)

Encode(t) == Query(TRUE, B64Encode(t))
Decode(t) == Query(B64Well(t), B64Decode(t))

------------------------------------------------------------------------------
(* The classes below the public ones (C++): a single RAM, a single cluster, *)
(* the decision between votes.                                             *)

\* A RAM is modelled by a discriminator with this RAM only; it knows no entry size, and
\* its inputs are long enough.
RamConfigOk(base, k) == ~ ExceedsWord(base, k)
RNew(o, n, a, iz, base, picked) ==
  LET ok == RamConfigOk(base, a)
  IN /\ ok => Len(picked) = a /\ \A i \in 1..Len(picked) : picked[i] \in 0..(n-1)
     /\ Create(o, "R", ok, NewD(n, base, iz, << picked >>))
RNewAt(o, n, idx, iz, base, picked) ==
  LET ok == RamConfigOk(base, Len(idx))
  IN (ok => picked = idx) /\ Create(o, "R", ok, NewD(n, base, iz, << idx >>))
RAgain(o, p) == Live(p, "R") /\ Create(o, "R", TRUE, Model(p))         \* from its configuration and data
RTrain(o, x) == Live(o, "R") /\ Change(o, IF Accepts(Model(o), x) THEN Did(Learn(Model(o), x)) ELSE Refuse(o))
RUntrain(o, x) == Live(o, "R") /\ Change(o, IF Accepts(Model(o), x) THEN Did(Unlearn(Model(o), x)) ELSE Refuse(o))
RVote(o, xs) == LET D == Model(o) IN
  Live(o, "R") /\ Query(\A i \in 1..Len(xs) : Accepts(D, xs[i]), [ i \in 1..Len(xs) |-> Vote(D, 1, xs[i]) ])
RMental(o) == LET D == Model(o) IN
  Live(o, "R") /\ Query(TRUE, [ i \in 1..Len(D.map[1]) |-> << D.map[1][i], SlotCount(D, 1, i) >> ])
RSize(o) == Live(o, "R") /\ Query(TRUE, Len(Model(o).map[1]))

UNew(o, n, cfg) == Create(o, "U", TRUE, [ cfg |-> cfg, c |-> [ n |-> n, ds |-> <<>> ] ])
UAgain(o, p) == Live(p, "U") /\ Create(o, "U", TRUE, Model(p))
UTrain(o, x, ms) == LET M == Model(o) IN
  Live(o, "U") /\ Change(o, { [ obj |-> [ M EXCEPT !.c = r.c ], ok |-> r.ok ] : r \in Present(M.cfg, M.c, x, ms, Nothing) })
UClassify(o, xs) == LET K == Model(o).c IN
  Live(o, "U") /\ Query(\A i \in 1..Len(xs) : AcceptsC(K, xs[i]),
                        [ i \in 1..Len(xs) |-> [ d \in 1..Len(K.ds) |-> Votes(K.ds[d], xs[i]) ] ])
UMentals(o) == Live(o, "U") /\ Query(TRUE, ClusterImages(Model(o).c))
USizes(o) == Live(o, "U") /\ Query(TRUE, << Len(Model(o).c.ds), Len(Model(o).c.ds) >>)
UScore(o, votes) == Live(o, "U") /\ Query(TRUE, MatchScore(votes))

VScores(all, bleach, conf) == Query(TRUE, Scores(all, bleach, conf))
VWinner(s) == Query(TRUE, Winner(s))
VLead(s) == Query(TRUE, << Best(s) - RunnerUp(s), Best(s) >>)

------------------------------------------------------------------------------
(* Text and files that somebody else wrote.  What is not well formed can   *)
(* be read by nobody; it is a file that is not there.                      *)

\* the text of a snapshot; shape: it is a JSON object with the fields and types it needs, t
EditSnapshot(s, k, shape, t) ==
  LET ok == shape /\ SnapshotOk(k, t)
  IN /\ UNCHANGED objs /\ Done
     /\ snaps' = Put(snaps, s, [ k |-> k, m |-> IF ok THEN SnapshotOf(k, t) ELSE <<>>, file |-> TRUE, there |-> ok ])
\* a data set file, a file of RAM contents
WriteSet(s, t) ==
  /\ UNCHANGED objs /\ Done
  /\ snaps' = Put(snaps, s, [ k |-> "S", m |-> IF SetTextOk(t) THEN SetOfText(t) ELSE <<>>,
                               file |-> TRUE, there |-> SetTextOk(t) ])
WriteHandle(s, t) ==
  /\ UNCHANGED objs /\ Done
  /\ snaps' = Put(snaps, s, [ k |-> "H", m |-> IF HandleTextOk(t) THEN HandleOfText(t) ELSE <<>>,
                               file |-> TRUE, there |-> HandleTextOk(t) ])
BFromText(o, t) == Create(o, "B", BinTextOk(t), BitsOfText(t))
HFromText(o, t) == Create(o, "H", HandleTextOk(t), HandleOfText(t))
HRead(o, s) == IF Loadable(s, "H") THEN Create(o, "H", TRUE, snaps[s].m) ELSE Create(o, "H", FALSE, <<>>)
=============================================================================
