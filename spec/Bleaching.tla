----------------------------- MODULE Bleaching -----------------------------
(***************************************************************************)
(* The decision between candidates.  all: function from candidate texts to *)
(* the sequence of votes of the candidate's RAMs.                          *)
(***************************************************************************)
EXTENDS Bytes

ScoreAt(votes, b) == Cardinality({ r \in 1..Len(votes) : votes[r] >= b })
ScoresAt(all, b)  == TLCEval([ k \in DOMAIN all |-> ScoreAt(all[k], b) ])

Best(s) == IF DOMAIN s = {} THEN 0 ELSE MaxOf({ s[k] : k \in DOMAIN s })

\* the best candidate leads every other one by at least conf
Unambiguous(s, conf) ==
  \E k \in DOMAIN s : \A j \in DOMAIN s \ {k} : s[k] - s[j] >= conf

\* bleaching stops at level b
Settled(all, b, conf) ==
  \E s \in { ScoresAt(all, b) } : Best(s) <= 1 \/ Unambiguous(s, conf)

\* the lowest settled level, by search upwards (declaratively: LevelDef)
RECURSIVE LevelFrom(_, _, _)
LevelFrom(all, conf, b) == IF Settled(all, b, conf) THEN b ELSE LevelFrom(all, conf, b+1)
Level(all, bleach, conf) == IF bleach THEN The({ LevelFrom(a, conf, 1) : a \in {all} }) ELSE 1

Scores(all, bleach, conf) == ScoresAt(all, Level(all, bleach, conf))

\* the best candidate, the text that sorts last among equals, the empty text if there is none
Winner(s) == IF DOMAIN s = {} THEN <<>>
             ELSE LexMax({ k \in DOMAIN s : s[k] = Best(s) })

\* the best score strictly below the best one, 0 if there is none
RunnerUp(s) ==
  LET B == { s[k] : k \in { j \in DOMAIN s : s[j] < Best(s) } }
  IN IF B = {} THEN 0 ELSE MaxOf(B)

Total(s) == MapThenSumSet(LAMBDA k : s[k], DOMAIN s)
=============================================================================
