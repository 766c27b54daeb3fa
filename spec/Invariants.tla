----------------------------- MODULE Invariants -----------------------------
(***************************************************************************)
(* State invariants and action properties of System.                       *)
(***************************************************************************)
EXTENDS System

\* all discriminators of an object
DiscsOf(b) ==
  IF b.k \in {"D", "R"} THEN { b.m }
  ELSE IF b.k = "W" THEN { b.m.cls[y] : y \in DOMAIN b.m.cls }
  ELSE IF b.k = "C" THEN UNION { RangeOf(b.m.cl[y].ds) : y \in DOMAIN b.m.cl } \cup RangeOf(b.m.uns.ds)
  ELSE IF b.k = "U" THEN RangeOf(b.m.c.ds)
  ELSE {}

\* every RAM has counted every learned example exactly once (as long as only learned examples
\* are untrained), and no cell is negative
CellsAddUp ==
  \A o \in DOMAIN objs : \A D \in DiscsOf(objs[o]) :
    /\ D.cnt >= 0
    /\ \A r \in 1..Len(D.map) :
         /\ \A d \in DOMAIN D.cells[r] : D.cells[r][d] >= 0 /\ Len(d) = Len(D.map[r])
         /\ SumOf(DOMAIN D.cells[r], D.cells[r]) = D.cnt

\* no cluster outgrows the limit, every member of a cluster has learned something
ClustersBounded ==
  \A o \in DOMAIN objs : objs[o].k = "C" =>
    LET M == objs[o].m IN
    \A K \in { M.cl[y] : y \in DOMAIN M.cl } \cup { M.uns } :
       /\ Len(K.ds) <= M.cfg.lim
       /\ \A i \in 1..Len(K.ds) : K.ds[i].cnt >= 1 /\ K.ds[i].n = K.n
NoEmptyCluster ==
  \A o \in DOMAIN objs : objs[o].k = "C" =>
    \A y \in DOMAIN objs[o].m.cl : Len(objs[o].m.cl[y].ds) >= 1

\* every position a RAM reads is a position of the entry
AddressingInside ==
  \A o \in DOMAIN objs : \A D \in DiscsOf(objs[o]) :
    \A r \in 1..Len(D.map) : \A i \in 1..Len(D.map[r]) : D.map[r][i] \in 0..(D.n - 1)

Sound == CellsAddUp /\ ClustersBounded /\ NoEmptyCluster /\ AddressingInside

------------------------------------------------------------------------------
\* a snapshot, once taken, never changes (it can only lose its files, or be replaced by
\* saving a data set under the same name)
SnapshotStep ==
  \A s \in DOMAIN snaps : s \in DOMAIN snaps' /\ (snaps[s].k # "S" => snaps'[s].m = snaps[s].m)
SnapshotsFixed == [][SnapshotStep]_vars

\* one call changes at most one object
OneObjectStep ==
  Cardinality({ o \in DOMAIN objs \cup DOMAIN objs' :
                  ~ (o \in DOMAIN objs /\ o \in DOMAIN objs' /\ objs[o] = objs'[o]) }) <= 1
OneObject == [][OneObjectStep]_vars

\* a class or cluster never loses its addressing
AddressingStep ==
  \A o \in DOMAIN objs \cap DOMAIN objs' :
    /\ objs[o].k = "W" /\ objs'[o].k = "W" /\ objs[o].m.cfg = objs'[o].m.cfg =>
         \A y \in DOMAIN objs[o].m.cls :
            y \in DOMAIN objs'[o].m.cls /\ objs'[o].m.cls[y].map = objs[o].m.cls[y].map
AddressingFixed == [][AddressingStep]_vars
=============================================================================
