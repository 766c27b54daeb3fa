-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The file named by the environment variable TRACES    *)
(* holds one recorded execution of the real library per line:              *)
(*     {"id": ..., "ev": [ {"e": action, "ok": did it return, ...} ... ]}  *)
(* Every event must be a step of System with the recorded arguments and    *)
(* the recorded outcome.  A trace is accepted when its last event was      *)
(* consumed, and the invariant SoundHere holds in every state on the way.      *)
(*                                                                         *)
(* What an object says about itself as a whole (its saved text, its size:  *)
(* ev.look) is not predicted, but as long as no call changed the object,   *)
(* it says the same again: seen holds what it said.  The same goes for     *)
(* what a canvas makes of a sequence.                                      *)
(*                                                                         *)
(* An event that no action consumes ("crash", "hang", "malformed") is      *)
(* never accepted.                                                         *)
(***************************************************************************)
EXTENDS Invariants, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, seen
tvars == << objs, snaps, ret, tr, l, seen >>

Events == Traces[tr].ev
ev == Events[l]

IsEvent(name) ==
  /\ l <= Len(Events)
  /\ ev.e = name
  /\ ev.fch = 0            \* no data file written earlier was changed or removed by the call
  /\ l' = l + 1 /\ tr' = tr

\* the outcome of the call is the recorded one
Outcome    == ret'.ok = ev.ok
Gives(v)   == ret'.ok = ev.ok /\ (ev.ok => ret'.v = v)

------------------------------------------------------------------------------
(* Recorded values *)

SetOf(s)   == RangeOf(s)
OptOf(j)   == [ iz |-> j.iz, complete |-> j.complete, base |-> j.base, idx |-> j.idx, map |-> j.map ]
WCfgOf(j)  == [ a |-> j.a, bleach |-> j.bleach, iz |-> j.iz, complete |-> j.complete, base |-> j.base,
                conf |-> j.conf, map |-> FnOfPairs(j.map), idx |-> j.idx, fields |-> SetOf(j.fields) ]
CCfgOf(j)  == [ a |-> j.a, ms |-> j.ms, msden |-> j.msden, th |-> j.th, lim |-> j.lim,
                bleach |-> j.bleach, iz |-> j.iz, complete |-> j.complete, base |-> j.base,
                conf |-> j.conf, fields |-> SetOf(j.fields) ]
SnapTextOf(k, j) ==
  IF k = "D" THEN j
  ELSE IF k = "W" THEN [ cfg |-> WCfgOf(j.cfg), cls |-> FnOfPairs(j.cls) ]
  ELSE [ cfg |-> CCfgOf(j.cfg), cl |-> FnOfPairs(j.cl), uns |-> j.uns ]
HandleFrom(rs) == [ r \in 1..Len(rs) |-> FnOfPairs(rs[r]) ]
PairsOf(f) == { << k, f[k] >> : k \in DOMAIN f }
Distinct(ps) == Cardinality({ ps[i][1] : i \in 1..Len(ps) }) = Len(ps)

\* v is num/den scaled by 10^6
Near(v, num, den) ==
  IF den = 0 THEN v = 0 ELSE v - Millionths(num, den) \in -2..3

\* a reported classification; fields: what it has to contain besides the class
OutcomeMatches(out, exp, fields) ==
  /\ out.lab = exp.lab
  /\ DOMAIN out = fields \cup {"lab"}
  /\ "act"  \in fields => Near(out.act, exp.score, exp.rams)
  /\ "conf" \in fields => Near(out.conf, exp.lead, exp.score)
  /\ "deg"  \in fields => /\ Len(out.deg) = Len(exp.cands)
                          /\ \A i \in 1..Len(out.deg) :
                               /\ out.deg[i][1] = exp.cands[i][1]
                               /\ Near(out.deg[i][2], exp.cands[i][2], exp.total)
OutcomesMatch(outs, exps, fields) ==
  /\ Len(outs) = Len(exps)
  /\ \A i \in 1..Len(outs) : OutcomeMatches(outs[i], exps[i], fields)
Fields(o) == IF ev.py THEN Model(o).cfg.fields ELSE {}

\* the recorded state of a discriminator
DStateMatches(s, D) ==
  /\ s.n = D.n /\ s.base = D.base /\ s.iz = D.iz /\ s.cnt = D.cnt
  /\ s.map = D.map
  /\ Len(s.cells) = Len(D.map)
  /\ LET c == Contents(D) IN
     \A r \in 1..Len(D.map) : SetOf(s.cells[r]) = c[r] /\ Cardinality(c[r]) = Len(s.cells[r])
DStatesMatch(ss, Ds) == Len(ss) = Len(Ds) /\ \A i \in 1..Len(Ds) : DStateMatches(ss[i], Ds[i])

WStateMatches(s, W) ==
  /\ WCfgOf(s.cfg) = W.cfg
  /\ Distinct(s.cls)
  /\ LET c == FnOfPairs(s.cls) IN
     /\ DOMAIN c = DOMAIN W.cls
     /\ \A y \in DOMAIN c : DStateMatches(c[y], W.cls[y])

ClusterMatches(s, K) == s.n = K.n /\ DStatesMatch(s.ds, K.ds)
CStateMatches(s, M) ==
  /\ LET c == CCfgOf(s.cfg) IN
     \* the recorded minScore is scaled by 10^6
     /\ [ c EXCEPT !.ms = 0, !.msden = 1 ] = [ M.cfg EXCEPT !.ms = 0, !.msden = 1 ]
     /\ Near(c.ms, M.cfg.ms, M.cfg.msden)
  /\ Distinct(s.cl)
  /\ LET c == FnOfPairs(s.cl) IN
     /\ DOMAIN c = DOMAIN M.cl
     /\ \A y \in DOMAIN c : ClusterMatches(c[y], M.cl[y])
  /\ IF s.uns = <<>> THEN M.uns.ds = <<>>
     ELSE M.uns.ds # <<>> /\ ClusterMatches(s.uns[1], M.uns)

------------------------------------------------------------------------------
TDisc ==
  \/ IsEvent("D.new")      /\ DNew(ev.o, ev.a, ev.n, OptOf(ev.opt), ev.picked) /\ Outcome
  \/ IsEvent("D.train")    /\ DTrain(ev.o, ev.xs) /\ Outcome
  \/ IsEvent("D.trainrep") /\ DTrainTimes(ev.o, ev.x, ev.times) /\ Outcome
  \/ IsEvent("D.untrain")  /\ DUntrain(ev.o, ev.x) /\ Outcome
  \/ IsEvent("D.overuntrain") /\ DOverUntrain(ev.o, ev.x) /\ Outcome
  \/ IsEvent("D.classify") /\ DClassify(ev.o, ev.xs) /\ Gives(ev.v)
  \/ IsEvent("D.mental")   /\ DMental(ev.o) /\ Gives(ev.v)
  \/ IsEvent("D.sizes")    /\ DSizes(ev.o) /\ Gives(ev.v)
  \/ IsEvent("D.state")    /\ Live(ev.o, "D") /\ Query(TRUE, <<>>) /\ Outcome /\ DStateMatches(ev.s, Model(ev.o))

TWisard ==
  \/ IsEvent("W.new")      /\ WNew(ev.o, WCfgOf(ev.cfg)) /\ Outcome
  \/ IsEvent("W.train")    /\ WTrain(ev.o, ev.xs, ev.ys, FnOfPairs(ev.picked)) /\ Outcome
  \/ IsEvent("W.trainrep") /\ WTrainTimes(ev.o, ev.x, ev.y, ev.times, FnOfPairs(ev.picked)) /\ Outcome
  \/ IsEvent("W.trainset") /\ WTrainSet(ev.o, ev.d, FnOfPairs(ev.picked)) /\ Outcome
  \/ IsEvent("W.untrain")  /\ WUntrain(ev.o, ev.xs, ev.ys) /\ Outcome
  \/ IsEvent("W.overuntrain") /\ WOverUntrain(ev.o, ev.xs, ev.ys) /\ Outcome
  \/ IsEvent("W.classify") /\ WClassify(ev.o, ev.xs) /\ Outcome
                           /\ (ev.ok => OutcomesMatch(ev.out, ret'.v, Fields(ev.o)))
  \/ IsEvent("W.classifyset") /\ WClassifySet(ev.o, ev.d) /\ Outcome
                           /\ (ev.ok => OutcomesMatch(ev.out, ret'.v, Fields(ev.o)))
  \/ IsEvent("W.mental")   /\ WMental(ev.o) /\ Outcome
                           /\ Distinct(ev.v) /\ FnOfPairs(ev.v) = ret'.v
  \/ IsEvent("W.state")    /\ Live(ev.o, "W") /\ Query(TRUE, <<>>) /\ Outcome /\ WStateMatches(ev.s, Model(ev.o))

ToldC == IF ev.said = <<>> THEN ToldNothing ELSE << FnOfPairs(ev.said[1]) >>
TClus ==
  \/ IsEvent("C.new")      /\ CNew(ev.o, CCfgOf(ev.cfg)) /\ Outcome
  \/ IsEvent("C.train")    /\ CTrain(ev.o, ev.xs, ev.ys, FnOfPairs(ev.picked), ToldC) /\ Outcome
  \/ IsEvent("C.trainsemi") /\ CTrainSemi(ev.o, ev.xs, ev.given, FnOfPairs(ev.picked), ToldC) /\ Outcome
  \/ IsEvent("C.trainuns") /\ CTrainUns(ev.o, ev.xs, ev.pickeduns, ev.said) /\ Outcome
  \/ IsEvent("C.classify") /\ CClassify(ev.o, ev.xs) /\ Outcome
                           /\ (ev.ok => OutcomesMatch(ev.out, ret'.v, Fields(ev.o)))
  \/ IsEvent("C.classifyuns") /\ CClassifyUns(ev.o, ev.xs) /\ Gives(ev.v)
  \/ IsEvent("C.mental")   /\ CMental(ev.o, ev.y) /\ Gives(ev.v)
  \/ IsEvent("C.mentals")  /\ CMentals(ev.o) /\ Outcome
                           /\ Distinct(ev.v) /\ FnOfPairs(ev.v) = ret'.v
  \/ IsEvent("C.state")    /\ Live(ev.o, "C") /\ Query(TRUE, <<>>) /\ Outcome /\ CStateMatches(ev.s, Model(ev.o))

TStore ==
  \/ IsEvent("save")   /\ Save(ev.o, ev.s, ev.mode, ev.writable, ev.prefix, ev.names) /\ Outcome
  \/ IsEvent("load")   /\ Load(ev.o, ev.s) /\ Outcome
  \/ IsEvent("rmfile") /\ RemoveFiles(ev.s) /\ Outcome
  \/ IsEvent("edit")   /\ EditSnapshot(ev.s, ev.k, ev.shape, IF ev.shape THEN SnapTextOf(ev.k, ev.t) ELSE <<>>) /\ Outcome
  \/ IsEvent("copy")   /\ Copy(ev.o, ev.p) /\ Outcome
  \/ IsEvent("del")    /\ Destroy(ev.o) /\ Outcome
  \/ IsEvent("getsizeof") /\ ev.o \in DOMAIN objs /\ Query(TRUE, <<>>) /\ Outcome

TData ==
  \/ IsEvent("B.new")      /\ BNewSize(ev.o, ev.n) /\ Outcome
  \/ IsEvent("B.bits")     /\ BNewBits(ev.o, ev.x) /\ Outcome
  \/ IsEvent("B.fromdata") /\ BNewData(ev.o, ev.p) /\ Outcome
  \/ IsEvent("B.set")      /\ BSet(ev.o, ev.i, ev.v) /\ Outcome
  \/ IsEvent("B.get")      /\ BGet(ev.o, ev.i) /\ Gives(ev.v)
  \/ IsEvent("B.all")      /\ BBits(ev.o) /\ Gives(ev.v)
  \/ IsEvent("B.size")     /\ BSize(ev.o) /\ Gives(ev.v)
  \/ IsEvent("B.data")     /\ Live(ev.o, "B") /\ Query(TRUE, <<>>) /\ Outcome
  \/ IsEvent("S.new")      /\ SNew(ev.o) /\ Outcome
  \/ IsEvent("S.add")      /\ SAdd(ev.o, ev.x, ev.y) /\ Outcome
  \/ IsEvent("S.addbin")   /\ SAddBin(ev.o, ev.b, ev.y) /\ Outcome
  \/ IsEvent("S.get")      /\ SGet(ev.o, ev.i) /\ Gives(ev.v)
  \/ IsEvent("S.label")    /\ SLabel(ev.o, ev.i) /\ Gives(ev.v)
  \/ IsEvent("S.size")     /\ SSize(ev.o) /\ Gives(ev.v)
  \/ IsEvent("S.save")     /\ SSave(ev.o, ev.s, ev.writable) /\ Outcome
  \/ IsEvent("S.load")     /\ SLoad(ev.o, ev.s, ev.named) /\ Outcome
  \/ IsEvent("H.from")     /\ HNewFrom(ev.o, ev.p, ev.y, HandleFrom(ev.seen)) /\ Outcome
  \/ IsEvent("H.empty")    /\ HNewEmpty(ev.o) /\ Outcome
  \/ IsEvent("H.fromdata") /\ HNewData(ev.o, ev.p) /\ Outcome
  \/ IsEvent("H.fromram")  /\ HNewRam(ev.o, ev.p, ev.r) /\ Outcome
  \/ IsEvent("H.fromfile") /\ HNewFile(ev.o, ev.s, HandleFrom(ev.seen)) /\ Outcome
  \/ IsEvent("H.save")     /\ HSave(ev.o, ev.s, ev.writable) /\ Outcome
  \/ IsEvent("H.load")     /\ HLoad(ev.o, ev.s) /\ Outcome
  \/ IsEvent("B.fromtext") /\ BFromText(ev.o, ev.t) /\ Outcome
  \/ IsEvent("H.fromtext") /\ HFromText(ev.o, ev.t) /\ Outcome
  \/ IsEvent("H.read")     /\ HRead(ev.o, ev.s) /\ Outcome
  \/ IsEvent("S.write")    /\ WriteSet(ev.s, ev.t) /\ Outcome
  \/ IsEvent("H.write")    /\ WriteHandle(ev.s, ev.t) /\ Outcome
  \/ IsEvent("H.set")      /\ HSet(ev.o, ev.r, ev.a, ev.v) /\ Outcome
  \/ IsEvent("H.get")      /\ HGet(ev.o, ev.r, ev.a) /\ Gives(ev.v)
  \/ IsEvent("H.ram")      /\ HRam(ev.o, ev.r) /\ Outcome
                           /\ Distinct(ev.v) /\ SetOf(ev.v) = ret'.v
  \/ IsEvent("H.data")     /\ HData(ev.o) /\ Outcome
                           /\ Len(ev.v) = Len(ret'.v)
                           /\ \A r \in 1..Len(ev.v) : Distinct(ev.v[r]) /\ SetOf(ev.v[r]) = ret'.v[r]
  \/ IsEvent("H.dataram")  /\ HRam(ev.o, ev.r) /\ Outcome
                           /\ Distinct(ev.v) /\ SetOf(ev.v) = ret'.v
  \/ IsEvent("H.compare")  /\ HCompare(ev.o, ev.p) /\ Gives(ev.v)

TOther ==
  \/ IsEvent("Y.new")       /\ YNew(ev.o, ev.img) /\ Outcome
  \/ IsEvent("Y.from")      /\ YNewFrom(ev.o, ev.p, ev.y) /\ Outcome
  \/ IsEvent("Y.make")      /\ ev.ok /\ YMake(ev.o, ev.v) /\ Outcome
  \/ IsEvent("Y.makemany")  /\ ev.ok /\ YMakeMany(ev.o, ev.n, ev.v) /\ Outcome
  \/ IsEvent("K.new")       /\ KNew(ev.o, ev.cfg, ev.kernels) /\ Outcome
  \/ IsEvent("K.transform") /\ KTransform(ev.o, ev.seq, ev.v) /\ Outcome
  \/ IsEvent("E.encode")    /\ Encode(ev.t) /\ Gives(ev.v)
  \/ IsEvent("E.decode")    /\ Decode(ev.t) /\ Gives(ev.v)

TInner ==
  \/ IsEvent("D.bare")     /\ DBare(ev.o, ev.n) /\ Outcome
  \/ IsEvent("R.new")      /\ RNew(ev.o, ev.n, ev.a, ev.iz, ev.base, ev.picked) /\ Outcome
  \/ IsEvent("R.idx")      /\ RNewAt(ev.o, ev.n, ev.idx, ev.iz, ev.base, ev.picked) /\ Outcome
  \/ IsEvent("R.again")    /\ RAgain(ev.o, ev.p) /\ Outcome
  \/ IsEvent("R.train")    /\ RTrain(ev.o, ev.x) /\ Outcome
  \/ IsEvent("R.untrain")  /\ RUntrain(ev.o, ev.x) /\ Outcome
  \/ IsEvent("R.vote")     /\ RVote(ev.o, ev.xs) /\ Gives(ev.v)
  \/ IsEvent("R.mental")   /\ RMental(ev.o) /\ Gives(ev.v)
  \/ IsEvent("R.size")     /\ RSize(ev.o) /\ Gives(ev.v)
  \/ IsEvent("R.state")    /\ Live(ev.o, "R") /\ Query(TRUE, <<>>) /\ Outcome
                           /\ LET D == Model(ev.o) c == Contents(D)[1] IN
                              /\ ev.s.base = D.base /\ ev.s.iz = D.iz /\ << ev.s.map >> = D.map
                              /\ SetOf(ev.s.cells) = c /\ Len(ev.s.cells) = Cardinality(c)
  \/ IsEvent("U.new")      /\ UNew(ev.o, ev.n, ev.cfg) /\ Outcome
  \/ IsEvent("U.again")    /\ UAgain(ev.o, ev.p) /\ Outcome
  \/ IsEvent("U.train")    /\ UTrain(ev.o, ev.x, ev.picked) /\ Outcome
  \/ IsEvent("U.classify") /\ UClassify(ev.o, ev.xs) /\ Gives(ev.v)
  \/ IsEvent("U.mentals")  /\ UMentals(ev.o) /\ Gives(ev.v)
  \/ IsEvent("U.sizes")    /\ USizes(ev.o) /\ Gives(ev.v)
  \/ IsEvent("U.score")    /\ UScore(ev.o, ev.votes) /\ Outcome /\ Near(ev.v, ret'.v[1], ret'.v[2])
  \/ IsEvent("U.state")    /\ Live(ev.o, "U") /\ Query(TRUE, <<>>) /\ Outcome /\ ClusterMatches(ev.s, Model(ev.o).c)
  \/ IsEvent("V.scores")   /\ VScores(FnOfPairs(ev.votes), ev.bleach, ev.conf) /\ Outcome
                           /\ Distinct(ev.v) /\ FnOfPairs(ev.v) = ret'.v
  \/ IsEvent("V.winner")   /\ VWinner(FnOfPairs(ev.scores)) /\ Gives(ev.v)
  \/ IsEvent("V.lead")     /\ VLead(FnOfPairs(ev.scores)) /\ Outcome /\ Near(ev.v, ret'.v[1], ret'.v[2])

Creations == { "D.bare", "R.new", "R.idx", "R.again", "U.new", "U.again", "load", "copy", "D.new", "W.new", "C.new", "B.new", "B.bits", "B.fromdata",
               "H.from", "H.empty", "H.fromdata", "H.fromram", "H.fromfile", "H.load", "H.read", "H.fromtext", "B.fromtext", "K.new" }
LooksSame ==
  LET kept == { k \in DOMAIN seen : /\ k[1] \in DOMAIN objs /\ k[1] \in DOMAIN objs'
                                    /\ objs'[k[1]] = objs[k[1]]
                                    /\ ~ (ev.e \in Creations /\ ev.ok /\ ev.o = k[1]) }
      now  == { << ev.o, ev.look[i][1] >> : i \in 1..Len(ev.look) }
      said(k) == ev.look[CHOOSE i \in 1..Len(ev.look) : ev.look[i][1] = k[2]][2]
  IN /\ \A k \in now \cap kept : seen[k] = said(k)
     /\ seen' = IF now = {} /\ kept = DOMAIN seen THEN seen
                ELSE [ k \in kept \cup now |-> IF k \in now THEN said(k) ELSE seen[k] ]

TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1 /\ seen = EmptyFn
TraceNext == (TDisc \/ TWisard \/ TClus \/ TStore \/ TData \/ TOther \/ TInner) /\ LooksSame
TraceSpec == TraceInit /\ [][TraceNext]_tvars

------------------------------------------------------------------------------
(* State constraints that report progress.  (The specification may take    *)
(* several steps for one event, where single precision decides a tie; a    *)
(* trace is accepted if one of them leads to its end.)                     *)
\* in snapshots that somebody else wrote, and after untraining what was not learned, cells need
\* not add up
SoundHere == AddressingInside /\ (Sound \/ \E i \in 1..(l-1) : Events[i].e \in {"edit", "D.overuntrain", "W.overuntrain"})
Accepted == l > Len(Events) => PrintT(<< "ACCEPTED", tr >>)
Progress == PrintT(<< "AT", l >>)
Shown == [ tr |-> tr, l |-> l ]
=============================================================================
