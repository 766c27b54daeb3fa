------------------------------- MODULE Formats ------------------------------
(***************************************************************************)
(* What texts and files mean to the library when it reads them back.  For  *)
(* every kind of text: is it well formed (then it is accepted), and which  *)
(* object does it describe.  Everything else has to be refused.            *)
(*                                                                         *)
(*   BinInput       Base64 of one byte (unused bits of the last byte) and  *)
(*                  the bits, eight per byte, the first one highest        *)
(*   RAM contents   Base64 of cells: 8 bytes address, 4 bytes value, low   *)
(*                  byte first; the RAMs of a discriminator separated      *)
(*                  by '.'                                                 *)
(*   data set file  entries separated by '.': Base64 of the label, '#',    *)
(*                  the BinInput                                           *)
(*   snapshot       a JSON object; its JSON part comes as a record here,   *)
(*                  RAM contents as text (inf: of a data file)             *)
(***************************************************************************)
EXTENDS Wisards, Clusters, Data, Base64

DotCh   == 46
SharpCh == 35

\* the pieces of t between the characters c
SplitAt(t, c) ==
  LET cuts == TLCEval(<<0>> \o SetToSortSeq({ i \in 1..Len(t) : t[i] = c }, LAMBDA a, b : a < b) \o <<Len(t) + 1>>)
  IN TLCEval([ k \in 1..(Len(cuts) - 1) |-> SubSeq(t, cuts[k] + 1, cuts[k+1] - 1) ])

\* the text of some bytes (the unused bits at its end do not matter)
B64Well(t) ==
  /\ Len(t) % 4 = 0
  /\ \A k \in 1..Len(t) : IsB64Char(t[k]) \/ (t[k] = B64Pad /\ k >= Len(t) - 1)
  /\ t # <<>> /\ t[Len(t) - 1] = B64Pad => t[Len(t)] = B64Pad
BytesOfText(t) == TLCEval(B64Decode(t))

------------------------------------------------------------------------------
(* BinInput *)

BinTextOk(t) ==
  /\ B64Well(t)
  /\ LET b == BytesOfText(t) IN Len(b) >= 1 /\ b[1] <= 7 /\ (b[1] > 0 => Len(b) > 1)
BitsOfText(t) ==
  LET b == BytesOfText(t)
  IN TLCEval([ i \in 1..(8 * (Len(b) - 1) - b[1]) |-> (b[2 + (i-1) \div 8] \div 2 ^ (7 - ((i-1) % 8))) % 2 ])
\* and the text of bits
BinText(x) ==
  LET unused == (8 - (Len(x) % 8)) % 8
      bit(i) == IF i <= Len(x) THEN x[i] ELSE 0
  IN B64Encode(<<unused>> \o [ k \in 1..((Len(x) + 7) \div 8) |->
        SumTo([ j \in 1..8 |-> bit(8*(k-1) + j) * 2 ^ (8 - j) ], 8) ])

------------------------------------------------------------------------------
(* RAM contents *)

CellBytes == 12
RamTextOk(t) == B64Well(t) /\ Len(BytesOfText(t)) % CellBytes = 0
CellAddress(b, k) == [ j \in 1..4 |-> b[CellBytes*(k-1) + 2*j - 1] + 256 * b[CellBytes*(k-1) + 2*j] ]
CellValue(b, k) ==
  LET v(j) == b[CellBytes*(k-1) + 8 + j]
  IN v(1) + 256 * v(2) + 65536 * v(3) + 16777216 * (IF v(4) >= 128 THEN v(4) - 256 ELSE v(4))
\* the last cell with an address counts
RamOfText(t) ==
  LET b == BytesOfText(t)
      n == Len(b) \div CellBytes
      address == TLCEval([ k \in 1..n |-> CellAddress(b, k) ])
  IN TLCEval([ a \in RangeOf(address) |-> CellValue(b, MaxOf({ k \in 1..n : address[k] = a })) ])
HandleTextOk(t) == \A p \in RangeOf(SplitAt(t, DotCh)) : RamTextOk(p)
HandleOfText(t) == LET ps == SplitAt(t, DotCh) IN TLCEval([ r \in 1..Len(ps) |-> RamOfText(ps[r]) ])

\* texts of contents, cells in any order: a sequence of <<address, value>> with value >= 0
CellText(c) == FlattenSeq([ j \in 1..4 |-> << c[1][j] % 256, c[1][j] \div 256 >> ])
               \o << c[2] % 256, (c[2] \div 256) % 256, (c[2] \div 65536) % 256, c[2] \div 16777216 >>
RamText(cs) == B64Encode(FlattenSeq([ k \in 1..Len(cs) |-> CellText(cs[k]) ]))
RECURSIVE JoinWith(_, _)
JoinWith(ps, c) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<c>> \o JoinWith(Tail(ps), c)

\* the digits of a 64 bit address (as four 16 bit limbs), b < 2^15: k of them, and what is left
\* of an address that has more (no input has this address)
RECURSIVE Div16(_, _, _, _)
Div16(w, b, i, r) ==            \* quotient (limbs i..1, highest first) and remainder of w / b
  IF i = 0 THEN << <<>>, r >>
  ELSE LET v == r * 65536 + w[i]
           low == Div16(w, b, i - 1, v % b)
       IN << Append(low[1], v \div b), low[2] >>
RECURSIVE DigitsOfWord(_, _, _)
DigitsOfWord(w, b, k) ==
  IF k = 0 THEN (IF w = <<0, 0, 0, 0>> THEN <<>> ELSE w)
  ELSE The({ <<qr[2]>> \o DigitsOfWord(qr[1], b, k - 1) : qr \in { Div16(w, b, 4, 0) } })

------------------------------------------------------------------------------
(* Data set file *)

EntryTextOk(p) ==
  \E i \in 1..Len(p) : /\ p[i] = SharpCh /\ \A j \in 1..(i-1) : p[j] # SharpCh
                       /\ B64Well(SubSeq(p, 1, i-1)) /\ BinTextOk(SubSeq(p, i+1, Len(p)))
EntryOfText(p) ==
  LET i == MinOf({ j \in 1..Len(p) : p[j] = SharpCh })
  IN [ x |-> BitsOfText(SubSeq(p, i+1, Len(p))), y |-> BytesOfText(SubSeq(p, 1, i-1)) ]
EntryTexts(t) == SelectSeq(SplitAt(t, DotCh), LAMBDA p : p # <<>>)
SetTextOk(t) == \A p \in RangeOf(EntryTexts(t)) : EntryTextOk(p)
SetOfText(t) == LET ps == EntryTexts(t) IN TLCEval([ i \in 1..Len(ps) |-> EntryOfText(ps[i]) ])

------------------------------------------------------------------------------
(* Snapshots.  A discriminator comes as [n, base, iz, cnt, map, data, inf, *)
(* there]: data in a file (inf) that may be there or not.                  *)

DiscTextOk(t) ==
  /\ t.base >= 2
  /\ MappingOk(t.map, t.n, t.base)
  /\ t.inf => t.there
  /\ (t.inf \/ t.data # <<>>) =>
       LET ps == SplitAt(t.data, DotCh) IN Len(ps) = Len(t.map) /\ \A r \in 1..Len(ps) : RamTextOk(ps[r])
DiscOfText(t) ==
  LET ps  == SplitAt(t.data, DotCh)
      ram(r) == IF r <= Len(ps) THEN RamOfText(ps[r]) ELSE NoRam
      cells(m, k) == LET ds == { << DigitsOfWord(a, t.base, k), m[a] >> : a \in DOMAIN m }
                     IN TLCEval([ d \in { p[1] : p \in ds } |-> (CHOOSE p \in ds : p[1] = d)[2] ])
  IN [ n |-> t.n, base |-> t.base, iz |-> t.iz, map |-> t.map, cnt |-> t.cnt,
       cells |-> TLCEval([ r \in 1..Len(t.map) |-> cells(ram(r), Len(t.map[r])) ]) ]

SnapshotOk(k, t) ==
  IF k = "D" THEN DiscTextOk(t)
  ELSE IF k = "W" THEN \A y \in DOMAIN t.cls : DiscTextOk(t.cls[y])
  ELSE /\ ParametersOkC(t.cfg.ms, t.cfg.msden, t.cfg.th, t.cfg.lim)
       /\ \A K \in RangeOf(t.uns) \cup { t.cl[y] : y \in DOMAIN t.cl } : \A i \in 1..Len(K.ds) : DiscTextOk(K.ds[i])
ClusterOfText(K) == [ n |-> K.n, ds |-> TLCEval([ i \in 1..Len(K.ds) |-> DiscOfText(K.ds[i]) ]) ]
SnapshotOf(k, t) ==
  IF k = "D" THEN DiscOfText(t)
  ELSE IF k = "W" THEN [ cfg |-> t.cfg, cls |-> TLCEval([ y \in DOMAIN t.cls |-> DiscOfText(t.cls[y]) ]) ]
  ELSE [ cfg |-> t.cfg, cl |-> TLCEval([ y \in DOMAIN t.cl |-> ClusterOfText(t.cl[y]) ]),
         uns |-> IF t.uns = <<>> THEN NoCluster ELSE ClusterOfText(t.uns[1]) ]
=============================================================================
