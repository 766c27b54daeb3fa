------------------------------ MODULE Histories ------------------------------
(***************************************************************************)
(* All histories of a small alphabet of calls.  TLC explores every         *)
(* sequence of Len calls that System allows, checks the invariants and     *)
(* action properties of System on the way, and prints each complete        *)
(* history; harness/behaviours.py executes every one of them on the real   *)
(* code and has the recording validated against the same System.           *)
(* "ask" stands for the questions of the property that is being checked.   *)
(***************************************************************************)
EXTENDS Invariants, TLC, Json

CONSTANTS Family, Length

VARIABLES h,      \* the calls so far, as numbers in the alphabet
          bag     \* object or snapshot -> what it learned and did not untrain, <<x, label>> -> how often
hvars == << objs, snaps, ret, h, bag >>

Text(s) == CASE s = "a" -> <<97>> [] s = "b" -> <<98>> [] s = "c" -> <<99>> [] s = "" -> <<>>
             [] s = "a::1" -> <<97, 58, 58, 49>> [] s = "a::10" -> <<97, 58, 58, 49, 48>>
Texts(ys) == [ i \in 1..Len(ys) |-> Text(ys[i]) ]

------------------------------------------------------------------------------
(* Calls: records in the form the drivers read *)

DNewOp(o) == [ op |-> "D.new", o |-> o, a |-> 2, n |-> 2,
               opt |-> [ base |-> 3, ignoreZero |-> FALSE, mapping |-> << <<0>>, <<1, 0>> >> ] ]
DTr(o, xs) == [ op |-> "D.train", o |-> o, xs |-> xs, how |-> "list" ]
DUn(o, x)  == [ op |-> "D.untrain", o |-> o, x |-> x ]

\* class a and b share an addressing, class c has another one
WMap == [ a |-> << <<0, 1>>, <<2>> >>, b |-> << <<0, 1>>, <<2>> >>, c |-> << <<2, 0>>, <<1>> >> ]
WMapOf == (<<97>> :> WMap.a) @@ (<<98>> :> WMap.b) @@ (<<99>> :> WMap.c)
WNewOp(o, conf) == [ op |-> "W.new", o |-> o, a |-> 2,
                     opt |-> [ mapping |-> WMap, confidence |-> conf, ignoreZero |-> FALSE, base |-> 2 ] ]
WTr(o, xs, ys) == [ op |-> "W.train", o |-> o, xs |-> xs, ys |-> ys ]
WUn(o, xs, ys) == [ op |-> "W.untrain", o |-> o, xs |-> xs, ys |-> ys, how |-> "one" ]

CNewOp(o, ms, msden, th, lim) ==
  [ op |-> "C.new", o |-> o, a |-> 2, ms |-> ms, msden |-> msden, th |-> th, lim |-> lim,
    opt |-> [ ignoreZero |-> FALSE, base |-> 2 ] ]
CTr(o, xs, ys) == [ op |-> "C.train", o |-> o, xs |-> xs, ys |-> ys ]
CUn(o, xs)     == [ op |-> "C.trainuns", o |-> o, xs |-> xs ]
CSemi(o, xs, i, y) == [ op |-> "C.trainsemi", o |-> o, xs |-> xs, given |-> << << i, y >> >> ]

SaveOp(o, s, mode) == [ op |-> "save", o |-> o, s |-> s, mode |-> mode ]
LoadOp(o, s, k)    == [ op |-> "load", o |-> o, s |-> s, k |-> k ]
Reload(o, k) == [ op |-> "reload", o |-> o, k |-> k ]        \* save and load in place
Ask(o)  == [ op |-> "ask", o |-> o ]
CopyOp(o, p) == [ op |-> "copy", o |-> o, p |-> p, how |-> "copy" ]
AssignOp(o, p) == [ op |-> "copy", o |-> o, p |-> p, how |-> "assign" ]
DelOp(o) == [ op |-> "del", o |-> o ]

Setup ==
  CASE Family = "D" -> << DNewOp("m") >>
    [] Family = "W" -> << WNewOp("m", 1) >>
    [] Family = "W2" -> << WNewOp("m", 2) >>
    [] Family = "C" -> << CNewOp("m", 1, 2, 2, 2) >>
    [] Family = "C1" -> << CNewOp("m", 0, 1, 4, 3) >>
    [] Family = "B" -> << [ op |-> "B.new", o |-> "m", n |-> 9 ] >>
    [] Family = "S" -> << [ op |-> "S.new", o |-> "m" ] >>
    [] Family = "H" -> << DNewOp("d"), DTr("d", << <<0, 1>>, <<2, 1>> >>), [ op |-> "H.from", o |-> "m", p |-> "d", k |-> "D" ] >>
    [] Family = "DS" -> << DNewOp("m"), DTr("m", << <<1, 2>> >>) >>
    [] Family = "WS" -> << WNewOp("m", 1), WTr("m", << <<1, 0, 1>> >>, << "a" >>) >>
    [] Family = "CS" -> << CNewOp("m", 1, 2, 2, 2), CTr("m", << <<1, 0, 1, 1>> >>, << "a" >>) >>
    [] Family = "WC" -> << WNewOp("m", 1), WTr("m", << <<1, 0, 1>> >>, << "a" >>), CopyOp("k", "m") >>
    [] Family = "CC" -> << CNewOp("m", 1, 2, 2, 2), CTr("m", << <<1, 0, 1, 1>> >>, << "a" >>), CopyOp("k", "m") >>
    [] Family = "DC" -> << DNewOp("m"), DTr("m", << <<1, 2>> >>), CopyOp("k", "m") >>

Alphabet ==
  CASE Family = "D" -> << DTr("m", << <<1, 2>> >>), DTr("m", << <<1, 2>>, <<0, 2>> >>), DTr("m", << <<2, 2>>, <<0, 0>> >>),
                          DUn("m", <<1, 2>>), DUn("m", <<0, 2>>), DTr("m", << <<0, 2>>, <<3, 0>> >>), Reload("m", "D"), Ask("m") >>
    [] Family \in {"W", "W2"} ->
                       << WTr("m", << <<1, 0, 1>> >>, << "a" >>), WTr("m", << <<1, 0, 1>>, <<0, 1, 1>> >>, << "b", "b" >>),
                          WTr("m", << <<0, 1, 1>>, <<1, 0, 1>> >>, << "a", "c" >>), WUn("m", << <<1, 0, 1>> >>, << "a" >>),
                          WUn("m", << <<0, 1, 1>>, <<1, 0, 1>> >>, << "b", "nobody" >>),
                          WTr("m", << <<0, 0, 1>>, <<2, 0, 0>> >>, << "b", "c" >>), Reload("m", "W"), Ask("m") >>
    [] Family \in {"C", "C1"} ->
                       << CTr("m", << <<1, 0, 1, 1>> >>, << "a" >>), CTr("m", << <<1, 0, 0, 1>>, <<0, 1, 0, 0>> >>, << "a", "b" >>),
                          CSemi("m", << <<1, 1, 1, 1>>, <<0, 1, 0, 0>>, <<1, 0, 1, 0>> >>, 1, "b"),
                          CUn("m", << <<1, 0, 1, 1>>, <<0, 1, 0, 0>> >>), CUn("m", << <<1, 0, 0, 1>> >>),
                          CTr("m", << <<1, 0, 1, 1>>, <<1, 0, 2, 1>> >>, << "a", "a" >>), Reload("m", "C"), Ask("m") >>
    [] Family = "B" -> << [ op |-> "B.set", o |-> "m", i |-> 0, v |-> 1 ], [ op |-> "B.set", o |-> "m", i |-> 8, v |-> 1 ],
                          [ op |-> "B.set", o |-> "m", i |-> 8, v |-> 0 ], [ op |-> "B.set", o |-> "m", i |-> 9, v |-> 1 ],
                          [ op |-> "B.set", o |-> "m", i |-> 7, v |-> 2 ], [ op |-> "B.set", o |-> "m", i |-> 7, v |-> 1 ],
                          [ op |-> "B.fromdata", o |-> "m", p |-> "m" ], Ask("m") >>
    [] Family = "S" -> << [ op |-> "S.add", o |-> "m", x |-> <<1, 0>>, y |-> "a" ], [ op |-> "S.add", o |-> "m", x |-> <<>>, y |-> "" ],
                          [ op |-> "S.add", o |-> "m", x |-> <<0, 0, 0, 0, 0, 0, 0, 1, 1>>, y |-> "" ],
                          [ op |-> "S.add", o |-> "m", x |-> <<2>>, y |-> "b" ],
                          [ op |-> "S.save", o |-> "m", s |-> "f", writable |-> TRUE ],
                          [ op |-> "S.load", o |-> "m", s |-> "f", named |-> TRUE ], [ op |-> "S.new", o |-> "m" ], Ask("m") >>
    [] Family = "H" -> << [ op |-> "H.set", o |-> "m", r |-> 0, a |-> 0, v |-> 5 ], [ op |-> "H.set", o |-> "m", r |-> 1, a |-> 3, v |-> 0 ],
                          [ op |-> "H.set", o |-> "m", r |-> 3, a |-> 1, v |-> 7 ], [ op |-> "H.fromdata", o |-> "m", p |-> "m" ],
                          [ op |-> "H.fromram", o |-> "k", p |-> "m", r |-> 1 ], [ op |-> "H.from", o |-> "m", p |-> "d", k |-> "D" ],
                          DTr("d", << <<0, 1>> >>), Ask("m") >>
    [] Family \in {"DS", "DC"} ->
                       << DTr("m", << <<1, 2>> >>), DTr("m", << <<0, 2>> >>), SaveOp("m", "s", "json"), LoadOp("k", "s", "D"), DTr("k", << <<2, 1>> >>) >>
                       \o (IF Family = "DC" THEN << CopyOp("m", "k"), AssignOp("k", "m"), DelOp("m") >>
                           ELSE << SaveOp("k", "s", "json"), SaveOp("m", "s", "config") >>) \o << Ask("m"), Ask("k") >>
    [] Family \in {"WS", "WC"} ->
                       << WTr("m", << <<0, 1, 1>> >>, << "b" >>), WUn("m", << <<1, 0, 1>> >>, << "a" >>), WTr("k", << <<1, 1, 1>>, <<1, 0, 1>> >>, << "c", "a" >>) >>
                       \o (IF Family = "WC" THEN << CopyOp("m", "k"), AssignOp("k", "m"), DelOp("k") >>
                           ELSE << SaveOp("m", "s", "json"), LoadOp("k", "s", "W"), SaveOp("k", "s", "json"), SaveOp("m", "s", "config") >>)
                       \o << Ask("m"), Ask("k") >>
    [] Family \in {"CS", "CC"} ->
                       << CTr("m", << <<0, 1, 1, 0>>, <<1, 0, 1, 1>> >>, << "a", "b" >>), CUn("m", << <<0, 1, 1, 0>> >>), CTr("k", << <<1, 1, 1, 1>> >>, << "a" >>), CUn("k", << <<1, 1, 0, 1>> >>) >>
                       \o (IF Family = "CC" THEN << CopyOp("m", "k"), AssignOp("k", "m"), DelOp("m") >>
                           ELSE << SaveOp("m", "s", "json"), LoadOp("k", "s", "C"), SaveOp("k", "s", "json"), SaveOp("m", "s", "config") >>)
                       \o << Ask("m"), Ask("k") >>

Calls == Setup \o Alphabet

------------------------------------------------------------------------------
(* A call as a step of System *)

Ch4 == << << <<0, 1>>, <<2, 3>> >>, << <<2, 1>>, <<0, 3>> >>, << <<0, 1>>, <<2, 3>> >> >>
ChC(o) == [ y \in { <<97>>, <<98>>, <<99>>, <<>> } |-> Ch4 ]

Learned(b, o, x, y) == IF o \in DOMAIN b /\ << x, y >> \in DOMAIN b[o] THEN b[o][<< x, y >>] ELSE 0
\* every removal is covered by what was learned
Covered(op) ==
  \A i \in 1..Len(op.xs) :
     Cardinality({ j \in 1..Len(op.xs) : op.xs[j] = op.xs[i] /\ op.ys[j] = op.ys[i] }) <= Learned(bag, op.o, op.xs[i], op.ys[i])
       \/ op.ys[i] = "nobody"

Pairs(op) == [ i \in 1..Len(op.xs) |-> << op.xs[i], op.ys[i] >> ]
RECURSIVE AddAll(_, _, _)
AddAll(b, ps, k) ==
  IF ps = <<>> THEN b
  ELSE AddAll([ p \in DOMAIN b \cup {ps[1]} |-> (IF p \in DOMAIN b THEN b[p] ELSE 0) + (IF p = ps[1] THEN k ELSE 0) ], Tail(ps), k)
BagOf(o) == IF o \in DOMAIN bag THEN bag[o] ELSE EmptyFn

NoBag == UNCHANGED bag
Do(op) ==
  CASE op.op = "D.new" -> DNew(op.o, op.a, op.n, [ iz |-> op.opt.ignoreZero, complete |-> TRUE, base |-> op.opt.base, idx |-> <<>>, map |-> op.opt.mapping ],
                               op.opt.mapping) /\ NoBag
    [] op.op = "D.train" -> DTrain(op.o, op.xs)
         /\ bag' = IF ret'.ok THEN Put(bag, op.o, AddAll(BagOf(op.o), [ i \in 1..Len(op.xs) |-> << op.xs[i], "" >> ], 1))
                   ELSE Put(bag, op.o, AddAll(BagOf(op.o), << << op.xs[1], "" >> >>, 1))
    [] op.op = "D.untrain" -> /\ Learned(bag, op.o, op.x, "") > 0
                              /\ DUntrain(op.o, op.x)
                              /\ bag' = Put(bag, op.o, AddAll(BagOf(op.o), << << op.x, "" >> >>, -1))
    [] op.op = "W.new" -> WNew(op.o, [ a |-> op.a, bleach |-> TRUE, iz |-> op.opt.ignoreZero, complete |-> TRUE, base |-> op.opt.base,
                                       conf |-> op.opt.confidence, map |-> WMapOf, idx |-> <<>>, fields |-> {} ]) /\ NoBag
    [] op.op = "W.train" -> WTrain(op.o, op.xs, Texts(op.ys), WMapOf)
         /\ bag' = Put(bag, op.o, AddAll(BagOf(op.o), IF ret'.ok THEN Pairs(op) ELSE << Pairs(op)[1] >>, 1))
    [] op.op = "W.untrain" -> /\ Covered(op)
                              /\ WUntrain(op.o, op.xs, [ i \in 1..Len(op.ys) |-> IF op.ys[i] = "nobody" THEN <<110>> ELSE Text(op.ys[i]) ])
                              /\ bag' = Put(bag, op.o, AddAll(BagOf(op.o), SelectSeq(Pairs(op), LAMBDA p : p[2] # "nobody"), -1))
    [] op.op = "C.new" -> CNew(op.o, [ a |-> op.a, ms |-> op.ms, msden |-> op.msden, th |-> op.th, lim |-> op.lim, bleach |-> TRUE,
                                       iz |-> op.opt.ignoreZero, complete |-> TRUE, base |-> op.opt.base, conf |-> 1, fields |-> {} ]) /\ NoBag
    [] op.op = "C.train" -> CTrain(op.o, op.xs, Texts(op.ys), ChC(op.o), ToldNothing) /\ NoBag
    [] op.op = "C.trainsemi" -> CTrainSemi(op.o, op.xs, << << op.given[1][1], Text(op.given[1][2]) >> >>, ChC(op.o), ToldNothing) /\ NoBag
    [] op.op = "C.trainuns" -> CTrainUns(op.o, op.xs, Ch4, ToldNothing) /\ NoBag
    [] op.op = "reload" -> Live(op.o, op.k) /\ Query(TRUE, <<>>) /\ NoBag
    [] op.op = "ask" -> op.o \in DOMAIN objs /\ Query(TRUE, <<>>) /\ NoBag
    [] op.op = "save" -> Save(op.o, op.s, op.mode, TRUE, <<>>, <<>>)
         /\ bag' = Put(bag, op.s, IF op.mode = "config" THEN EmptyFn ELSE BagOf(op.o))
    [] op.op = "load" -> op.s \in DOMAIN snaps /\ Load(op.o, op.s) /\ bag' = Put(bag, op.o, BagOf(op.s))
    [] op.op = "copy" -> op.p \in DOMAIN objs /\ (op.how = "assign" => op.o \in DOMAIN objs)
                         /\ Copy(op.o, op.p) /\ bag' = Put(bag, op.o, BagOf(op.p))
    [] op.op = "del" -> Destroy(op.o) /\ NoBag
    [] op.op = "B.new" -> BNewSize(op.o, op.n) /\ NoBag
    [] op.op = "B.set" -> BSet(op.o, op.i, op.v) /\ NoBag
    [] op.op = "B.fromdata" -> BNewData(op.o, op.p) /\ NoBag
    [] op.op = "S.new" -> SNew(op.o) /\ NoBag
    [] op.op = "S.add" -> SAdd(op.o, op.x, Text(op.y)) /\ NoBag
    [] op.op = "S.save" -> SSave(op.o, op.s, op.writable) /\ NoBag
    [] op.op = "S.load" -> SLoad(op.o, op.s, op.named) /\ NoBag
    [] op.op = "H.from" -> HNewFrom(op.o, op.p, <<>>, HandleOf(Model(op.p))) /\ NoBag
    [] op.op = "H.set" -> HSet(op.o, op.r, << op.a, 0, 0, 0 >>, op.v) /\ NoBag
    [] op.op = "H.fromdata" -> HNewData(op.o, op.p) /\ NoBag
    [] op.op = "H.fromram" -> HNewRam(op.o, op.p, op.r) /\ NoBag

Total1 == Len(Setup) + Length
HInit == Init /\ h = <<>> /\ bag = EmptyFn
HNext ==
  /\ Len(h) < Total1
  /\ \E c \in IF Len(h) < Len(Setup) THEN { Len(h) + 1 } ELSE (Len(Setup) + 1)..Len(Calls) :
       /\ Do(Calls[c]) /\ h' = Append(h, c)
       \* asking twice in a row or reloading twice in a row adds nothing
       /\ Len(h) > Len(Setup) => ~ (h[Len(h)] = c /\ Calls[c].op \in { "ask", "reload" })
HSpec == HInit /\ [][HNext]_hvars

------------------------------------------------------------------------------
LastCall == Calls[h'[Len(h')]]
\* a snapshot only changes when the program saves under its name again
SnapshotStepH == \A s \in DOMAIN snaps : s \in DOMAIN snaps' /\ (snaps'[s] = snaps[s] \/ (LastCall.op \in { "save", "S.save" } /\ LastCall.s = s))
SnapshotsKept == [][SnapshotStepH]_hvars
\* a class never loses its addressing, as long as its model is not replaced
AddressingKeptH == [][LastCall.op \in { "load", "copy" } \/ AddressingStep]_hvars
\* only the object a call is made on changes
OnlyItsObject == [][\A o \in DOMAIN objs : (o \in DOMAIN objs' /\ objs'[o] = objs[o]) \/ o = LastCall.o]_hvars
\* what is asked, and a call that is refused outright, changes nothing
QueriesChangeNothing == [][LastCall.op \in { "ask", "reload", "save", "S.save" } => UNCHANGED objs]_hvars

\* what was learned, counted through the bag, is what every discriminator counts (D, W)
RECURSIVE BagCount(_, _)
BagCount(b, P) == SumOf({ p \in P : p \in DOMAIN b }, b)
CountsAgree ==
  \A o \in DOMAIN objs \cap DOMAIN bag :
    /\ objs[o].k = "D" => objs[o].m.cnt = BagCount(bag[o], DOMAIN bag[o])
    /\ objs[o].k = "W" => \A y \in DOMAIN objs[o].m.cls :
         objs[o].m.cls[y].cnt = BagCount(bag[o], { p \in DOMAIN bag[o] : Text(p[2]) = y })

\* (constraint) prints the complete histories, and the alphabet once
Shown ==
  /\ h = <<>> => PrintT("CALLS " \o ToJson(Calls))
  /\ (Len(h) = Total1) => PrintT(<< "HISTORY", h >>)
=============================================================================
