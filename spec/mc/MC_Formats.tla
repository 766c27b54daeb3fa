----------------------------- MODULE MC_Formats -----------------------------
(***************************************************************************)
(* C25 (and C09, C16, C17, C18).  Objects grow step by step; in every      *)
(* state the text of the object is well formed and describes exactly this  *)
(* object, a text that was cut anywhere is refused or describes another    *)
(* object (a cut file is never taken for the whole), and characters that   *)
(* do not belong there are noticed.                                        *)
(***************************************************************************)
EXTENDS System

CONSTANTS MaxBits,          \* a BinInput
          MaxEntries,       \* a data set
          Labels,           \* texts
          MaxCells, Addresses, Values,   \* RAM contents: pairs, the last one counts
          Base, Entry, Maps, MaxLearn    \* a discriminator

LabelsC == << <<>>, <<97>>, <<35, 46>>, <<0, 255>> >>
AddressesC == << <<0, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<1, 0, 0, 32768>>, <<0, 1, 0, 0>> >>
ValuesC == << 0, 1, 255, 2147483647 >>
MapsC == << << <<0, 1>>, <<2, 0>> >>, << <<0, 1, 2>> >>, << <<2>>, <<1>>, <<0>> >> >>

VARIABLES kind, b, es, cs, D
v == << kind, b, es, cs, D >>

AllLabels == { Labels[i] : i \in 1..Len(Labels) }
NewDisc(m) == NewD(Entry, Base, FALSE, m)

MCInit == /\ kind \in {"B", "S", "H", "D"} /\ b = <<>> /\ es = <<>> /\ cs = << <<>> >>
          /\ IF kind = "D" THEN \E i \in 1..Len(Maps) : D = NewDisc(Maps[i]) ELSE D = <<>>
GrowB == kind = "B" /\ Len(b) < MaxBits /\ \E i \in {0, 1} : b' = Append(b, i) /\ UNCHANGED << kind, es, cs, D >>
GrowS == /\ kind = "S" /\ Len(es) < MaxEntries
         /\ \E y \in AllLabels, x \in { <<>>, <<1>>, <<0, 1, 1, 0, 1, 0, 0, 1>>, <<1, 0, 0, 0, 0, 0, 0, 0, 1>> } :
               es' = Append(es, [ x |-> x, y |-> y ])
         /\ UNCHANGED << kind, b, cs, D >>
GrowH == /\ kind = "H" /\ SumTo([ r \in 1..Len(cs) |-> Len(cs[r]) ], Len(cs)) < MaxCells
         /\ UNCHANGED << kind, b, es, D >>
         /\ \/ Len(cs) < 3 /\ cs' = Append(cs, <<>>)
            \/ \E i \in 1..Len(Addresses), j \in 1..Len(Values) : cs' = [ cs EXCEPT ![Len(cs)] = Append(@, << Addresses[i], Values[j] >>) ]
GrowD == /\ kind = "D" /\ D.cnt < MaxLearn
         /\ \E x \in [ 1..Entry -> 0..(Base - 1) ] : D' = Learn(D, x)
         /\ UNCHANGED << kind, b, es, cs >>
MCNext == (GrowB \/ GrowS \/ GrowH \/ GrowD) /\ UNCHANGED vars
MCSpec == MCInit /\ Init /\ [][MCNext]_<< v, objs, snaps, ret >>

Cuts(t) == { SubSeq(t, 1, k) : k \in 0..(Len(t) - 1) }
Strange == { 0, 10, 32, 35, 45, 46, 58, 61, 64, 91, 95, 96, 123, 128, 255 }
\* a strange character somewhere in the middle
Stained(t) == { [ t EXCEPT ![i] = c ] : i \in 1..(Len(t) - 2), c \in Strange }

\* ------------------------------------------------------------------ BinInput
BinRoundTrip == LET t == BinText(b) IN BinTextOk(t) /\ BitsOfText(t) = b
\* a cut text is refused, or it is shorter
BinCut == \A t \in Cuts(BinText(b)) : BinTextOk(t) => BitsOfText(t) # b
BinStained == \A t \in Stained(BinText(b)) : ~ BinTextOk(t)

\* ------------------------------------------------------------------ data sets
EntryText(e) == B64Encode(e.y) \o <<SharpCh>> \o BinText(e.x)
SetText(s) == JoinWith([ i \in 1..Len(s) |-> EntryText(s[i]) ], DotCh)
SetRoundTrip == LET t == SetText(es) IN SetTextOk(t) /\ SetOfText(t) = es
SetCut == \A t \in Cuts(SetText(es)) : SetTextOk(t) => SetOfText(t) # es

\* ------------------------------------------------------------------ RAM contents
HandleText(h) == JoinWith([ r \in 1..Len(h) |-> RamText(h[r]) ], DotCh)
Meant(r) == [ a \in { r[i][1] : i \in 1..Len(r) } |-> r[MaxOf({ i \in 1..Len(r) : r[i][1] = a })][2] ]
HandleRoundTrip ==
  LET t == HandleText(cs) IN HandleTextOk(t) /\ HandleOfText(t) = [ r \in 1..Len(cs) |-> Meant(cs[r]) ]
\* a text cut between two cells of the last RAM cannot be told from a whole one: it says less
RECURSIVE Cells(_)
Cells(h) == IF h = <<>> THEN 0 ELSE Cardinality(DOMAIN h[1]) + Cells(Tail(h))
Count(t) == LET h == HandleOfText(t) IN Len(h) + Cells(h)
HandleCut == LET t == HandleText(cs) IN
  \A u \in Cuts(t) : HandleTextOk(u) => Count(u) <= Count(t)

\* ------------------------------------------------------------------ discriminators
DiscText(E) ==
  [ n |-> E.n, base |-> E.base, iz |-> E.iz, cnt |-> E.cnt, map |-> E.map, inf |-> FALSE, there |-> TRUE,
    data |-> JoinWith([ r \in 1..Len(E.map) |-> RamText(SetToSeq({ << Word64(d, E.base), E.cells[r][d] >> : d \in DOMAIN E.cells[r] })) ], DotCh) ]
DiscRoundTrip == kind = "D" =>
  LET t == DiscText(D) IN /\ DiscTextOk(t) /\ DiscOfText(t) = D
                          /\ DiscTextOk([ t EXCEPT !.inf = TRUE ]) /\ DiscOfText([ t EXCEPT !.inf = TRUE ]) = D
                          /\ ~ DiscTextOk([ t EXCEPT !.inf = TRUE, !.there = FALSE ])
                          \* without contents: nothing was learned
                          /\ DiscOfText([ t EXCEPT !.data = <<>> ]).cells = Forget(D).cells
                          /\ ~ DiscTextOk([ t EXCEPT !.base = 1 ]) /\ ~ DiscTextOk([ t EXCEPT !.n = 0 ])
\* a cut data file is refused, or it has less to say
DiscCut == kind = "D" =>
  LET t == DiscText(D) IN
  \A u \in Cuts(t.data) : LET s == [ t EXCEPT !.data = u, !.inf = TRUE ] IN
     DiscTextOk(s) => \E r \in 1..Len(D.map) : DOMAIN DiscOfText(s).cells[r] # DOMAIN D.cells[r]
\* RAMs that are missing or too many
DiscRams == kind = "D" =>
  LET t == DiscText(D) IN
  /\ ~ DiscTextOk([ t EXCEPT !.inf = TRUE, !.data = Append(@, DotCh) ])
  /\ t.data # <<>> => ~ DiscTextOk([ t EXCEPT !.data = <<DotCh>> \o @ ])

ASSUME DigitsBack == \A q \in { <<2, 16>>, <<3, 7>>, <<10, 5>>, <<256, 8>>, <<257, 7>>, <<32767, 4>> } :
  \A d \in { [ i \in 1..q[2] |-> 0 ], [ i \in 1..q[2] |-> q[1] - 1 ], [ i \in 1..q[2] |-> i % q[1] ], [ i \in 1..q[2] |-> (7 * i + 5) % q[1] ] } :
     DigitsOfWord(Word64(d, q[1]), q[1], q[2]) = d
=============================================================================
