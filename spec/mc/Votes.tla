-------------------------------- MODULE Votes --------------------------------
(***************************************************************************)
(* All tables of votes of a small scope: what every RAM of every candidate *)
(* answers.  For each one TLC checks that the decision is well defined     *)
(* (C04) and that what is reported lies in [0,1] (C05), and prints the     *)
(* table; harness/behaviours.py makes the real library hold exactly these  *)
(* votes and asks it to decide.                                            *)
(***************************************************************************)
EXTENDS Bleaching, TLC

CONSTANTS NLabels, NRams, MaxVote, Confs

VARIABLE t
Init == t \in [ 1..NLabels -> [ 1..NRams -> 0..MaxVote ] ]
Next == UNCHANGED t
Spec == Init /\ [][Next]_t

All == [ k \in { <<96 + i>> : i \in 1..NLabels } |-> t[k[1] - 96] ]
Decided ==
  \A conf \in Confs : \A bleach \in BOOLEAN :
    LET s == Scores(All, bleach, conf)
        b == Level(All, bleach, conf)
        w == Winner(s)
    IN /\ bleach => Settled(All, b, conf) /\ \A j \in 1..(b-1) : ~ Settled(All, j, conf)
       /\ b <= MaxVote + 1
       /\ s[w] = Best(s) /\ \A k \in DOMAIN s : s[k] < s[w] \/ k = w \/ LexLess(k, w)
       /\ RunnerUp(s) >= 0 /\ RunnerUp(s) <= Best(s) /\ Best(s) <= NRams /\ Best(s) <= Total(s)
Shown == PrintT(<< "TABLE", t >>)
=============================================================================
