------------------------------- MODULE Base64 -------------------------------
(***************************************************************************)
(* The text encoding used inside snapshots and data files: RFC 4648        *)
(* Base64, standard alphabet, padded.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* A-Z a-z 0-9 + /
B64Char(v) ==
  IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + (v - 26)
  ELSE IF v < 62 THEN 48 + (v - 52) ELSE IF v = 62 THEN 43 ELSE 47
B64Pad == 61

IsB64Char(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 43 \/ c = 47
B64Value(c) ==
  IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 97 + 26
  ELSE IF c \in 48..57 THEN c - 48 + 52 ELSE IF c = 43 THEN 62 ELSE 63

\* byte i of s, 0 beyond the end
B64ByteAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

\* Every three bytes (the last group may have one or two) give four characters of six bits.
B64Encode(s) ==
  [ k \in 1..(4 * ((Len(s) + 2) \div 3)) |->
      LET i == 3 * ((k - 1) \div 4) + 1         \* first byte of the group
          j == (k - 1) % 4                      \* which character of the group
          b(d) == B64ByteAt(s, i + d)
      IN IF i + j - 1 > Len(s) THEN B64Pad
         ELSE B64Char(IF j = 0 THEN b(0) \div 4
                      ELSE IF j = 1 THEN (b(0) % 4) * 16 + b(1) \div 16
                      ELSE IF j = 2 THEN (b(1) % 16) * 4 + b(2) \div 64
                      ELSE b(2) % 64) ]

\* t is the encoding of some byte string (canonical: unused bits are 0)
B64Canonical(t) ==
  /\ Len(t) % 4 = 0
  /\ \A k \in 1..Len(t) : IsB64Char(t[k]) \/ (t[k] = B64Pad /\ k >= Len(t) - 1)
  /\ t # <<>> =>
       LET n == Len(t)
       IN /\ (t[n-1] = B64Pad => t[n] = B64Pad /\ B64Value(t[n-2]) % 16 = 0)
          /\ (t[n-1] # B64Pad /\ t[n] = B64Pad => B64Value(t[n-1]) % 4 = 0)

B64Pads(t) == Len(SelectSeq(t, LAMBDA c : c = B64Pad))
B64Decode(t) ==
  [ i \in 1..(3 * (Len(t) \div 4) - B64Pads(t)) |->
      LET k == 4 * ((i - 1) \div 3) + 1         \* first character of the group
          j == (i - 1) % 3                      \* which byte of the group
      IN IF j = 0 THEN B64Value(t[k]) * 4 + B64Value(t[k+1]) \div 16
         ELSE IF j = 1 THEN (B64Value(t[k+1]) % 16) * 16 + B64Value(t[k+2]) \div 4
         ELSE (B64Value(t[k+2]) % 4) * 64 + B64Value(t[k+3]) ]
=============================================================================
