------------------------------ MODULE MC_Base64 ------------------------------
(***************************************************************************)
(* C24.  Texts built byte by byte; the encoder as the library runs it (a   *)
(* window of six bits moving over the bytes) is compared with the group    *)
(* definition, decoding undoes encoding, and the alphabet, the length and  *)
(* the padding are those of RFC 4648.                                      *)
(***************************************************************************)
EXTENDS Base64, Integers, FiniteSets, TLC

CONSTANTS Symbols, MaxLen

VARIABLES t,      \* the text
          bits    \* its bits, most significant first
v == << t, bits >>

BitsOf(b) == [ i \in 1..8 |-> (b \div (2 ^ (8 - i))) % 2 ]
Init == t = <<>> /\ bits = <<>>
Next == Len(t) < MaxLen /\ \E b \in Symbols : t' = Append(t, b) /\ bits' = bits \o BitsOf(b)
Spec == Init /\ [][Next]_v

BitAt(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
Window(k) == LET p == 6 * (k - 1) IN
  BitAt(p+1) * 32 + BitAt(p+2) * 16 + BitAt(p+3) * 8 + BitAt(p+4) * 4 + BitAt(p+5) * 2 + BitAt(p+6)
Used == (Len(bits) + 5) \div 6

GroupsAreWindows ==
  LET e == B64Encode(t) IN
  /\ Len(e) % 4 = 0 /\ Len(e) >= Used /\ Len(e) < Used + 4
  /\ \A k \in 1..Len(e) : e[k] = IF k <= Used THEN B64Char(Window(k)) ELSE B64Pad
RoundTrip == LET e == B64Encode(t) IN B64Canonical(e) /\ B64Decode(e) = t

ASSUME CharsDistinct == Cardinality({ B64Char(k) : k \in 0..63 }) = 64
ASSUME CharsInverse == \A k \in 0..63 : IsB64Char(B64Char(k)) /\ B64Value(B64Char(k)) = k
\* RFC 4648, section 10
ASSUME TestVectors ==
  /\ B64Encode(<<>>) = <<>>
  /\ B64Encode(<<102>>) = <<90, 103, 61, 61>>
  /\ B64Encode(<<102, 111>>) = <<90, 109, 56, 61>>
  /\ B64Encode(<<102, 111, 111>>) = <<90, 109, 57, 118>>
  /\ B64Encode(<<102, 111, 111, 98, 97, 114>>) = <<90, 109, 57, 118, 89, 109, 70, 121>>
=============================================================================
