------------------------------ MODULE MC_Bleach ------------------------------
(***************************************************************************)
(* The search for the bleaching level as the library runs it, candidate by *)
(* candidate, in any order: at each level it counts every candidate's      *)
(* votes, keeps the best count and whether anything came close, and stops  *)
(* or goes one level up.  C04: it terminates, with the scores, level and   *)
(* winner of the declarative definitions, in whatever order candidates     *)
(* were examined.  C05: what is reported lies in [0,1].                    *)
(***************************************************************************)
EXTENDS Bleaching, TLC

CONSTANTS Labels, Rams, MaxVote, MaxConf

LabelSet == { <<97>>, <<97, 98>>, <<98>> }

VARIABLES all, bleach, conf,      \* the question
          b, seen, s, best, close, done
v == << all, bleach, conf, b, seen, s, best, close, done >>

Init == /\ all \in [ Labels -> [ 1..Rams -> 0..MaxVote ] ]
        /\ bleach \in BOOLEAN /\ conf \in 1..MaxConf
        /\ b = 1 /\ seen = {} /\ s = [ k \in Labels |-> 0 ] /\ best = 0 /\ close = FALSE /\ done = FALSE

\* candidate k is compared with the best so far
Examine ==
  /\ ~ done /\ seen # Labels
  /\ \E k \in Labels \ seen :
       LET c == ScoreAt(all[k], b) IN
       /\ s' = [ s EXCEPT ![k] = c ]
       /\ IF c > best THEN close' = (seen # {} /\ c - best < conf) /\ best' = c
          ELSE close' = (close \/ (seen # {} /\ best - c < conf)) /\ best' = best
       /\ seen' = seen \cup {k}
  /\ UNCHANGED << all, bleach, conf, b, done >>
LevelUp == /\ ~ done /\ seen = Labels
           /\ IF bleach /\ close /\ best > 1
              THEN /\ b' = b + 1 /\ seen' = {} /\ best' = 0 /\ close' = FALSE /\ done' = FALSE
              ELSE done' = TRUE /\ UNCHANGED << b, seen, best, close >>
           /\ UNCHANGED << all, bleach, conf, s >>
Next == Examine \/ LevelUp
Spec == Init /\ [][Next]_v /\ WF_v(Next)

Terminates == <>done
Bounded == b <= MaxVote + 1

\* the lowest level that settles, without searching
IsLevel(k) == Settled(all, k, conf) /\ \A j \in 1..(k-1) : ~ Settled(all, j, conf)
Right ==
  done => /\ bleach => IsLevel(b) /\ b = Level(all, bleach, conf)
          /\ ~ bleach => b = 1
          /\ s = Scores(all, bleach, conf)
          /\ Labels # {} => LET w == Winner(s) IN
               /\ w \in Labels /\ s[w] = best
               /\ \A k \in Labels : s[k] = best => k = w \/ LexLess(k, w)
Degrees ==
  done => /\ best >= 0 /\ best <= Rams
          /\ RunnerUp(s) >= 0 /\ RunnerUp(s) <= best
          /\ \A k \in Labels : s[k] >= 0 /\ s[k] <= Total(s)
=============================================================================
