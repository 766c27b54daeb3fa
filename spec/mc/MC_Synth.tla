------------------------------- MODULE MC_Synth -------------------------------
(***************************************************************************)
(* C19.  The synthesizer draws position by position: a number r of 0..K-1, *)
(* all equally likely, and the position is 1 iff r * max < v * K.  Every   *)
(* draw it makes is allowed (DrawOk), every allowed draw is made, and over *)
(* all r the position is 1 in exactly v * K / max of K cases, which        *)
(* CountsOk accepts - and it refuses counts far from that.                 *)
(***************************************************************************)
EXTENDS Data, TLC

CONSTANTS MaxSize, MaxV, K

VARIABLES img, out, hits
v == << img, out, hits >>

Init == /\ img \in UNION { [ 1..n -> 0..MaxV ] : n \in 0..MaxSize }
        /\ out = <<>> /\ hits = <<>>
Top == MaxIntensity(img)
One(i, r) == Top > 0 /\ r * Top < img[i] * K
Draw == /\ Len(out) < Len(img)
        /\ \E r \in 0..(K-1) :
             out' = Append(out, IF One(Len(out) + 1, r) THEN 1 ELSE 0)
        /\ hits' = Append(hits, Cardinality({ r \in 0..(K-1) : One(Len(out) + 1, r) }))
        /\ UNCHANGED img
Spec == Init /\ [][Draw]_v

Done == Len(out) = Len(img)
Allowed == Done => DrawOk(img, out)
\* an allowed draw is one the generator makes: where the specification leaves a choice, r decides
Possible == Done => \A w \in [ 1..Len(img) -> {0, 1} ] :
  DrawOk(img, w) = \A i \in 1..Len(img) : \E r \in 0..(K-1) : w[i] = (IF One(i, r) THEN 1 ELSE 0)
Expected == Done => /\ \A i \in 1..Len(img) : hits[i] = IF Top = 0 THEN 0 ELSE (img[i] * K) \div Top
                    /\ CountsOk(img, hits, K)
Repeated == [ i \in 1..Len(img) |-> hits[i] * 40 ]
Frequencies == Done => /\ CountsOk(img, Repeated, 40 * K)
                       \* always 0 and always 1 are exact, a fair coin that never shows is refused
                       /\ \A i \in 1..Len(img) :
                            /\ (Top = 0 \/ img[i] = 0) => ~ CountOk(img, i, 1, 40 * K)
                            /\ (Top > 0 /\ img[i] = Top) => ~ CountOk(img, i, 40 * K - 1, 40 * K)
                            /\ (img[i] > 0 /\ 2 * img[i] <= Top) => ~ CountOk(img, i, 40 * K, 40 * K)
                            /\ (2 * img[i] >= Top /\ Top > 0) => ~ CountOk(img, i, 0, 40 * K)
=============================================================================
