-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* Sensors on one rig, pairwise calibrations listed in the order (1,2),     *)
(* (1,3), ..., (2,3), ..., one of which may deviate, and the loop through   *)
(* first to second, ..., to last and back to the first.                     *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, FiniteSets

CONSTANTS Pool, MaxN, Deviations, Given, Limit

VARIABLES sensors, where, by, phase
vars == <<sensors, where, by, phase>>

N == Len(sensors)
RECURSIVE PairList(_, _, _)
PairList(i, j, n) == IF i >= n THEN <<>>
                     ELSE IF j > n THEN PairList(i + 1, i + 2, n)
                     ELSE <<<<i, j>>>> \o PairList(i, j + 1, n)
AllPairs == PairList(1, 2, N)
True(i, j) == MMul(MInv(sensors[i]), sensors[j])
Calibrated(k) == LET p == AllPairs[k] IN IF k = where THEN MMul(True(p[1], p[2]), by) ELSE True(p[1], p[2])
IndexOf(i, j) == CHOOSE k \in 1..Len(AllPairs) : AllPairs[k] = <<i, j>>
RECURSIVE Chain(_)
Chain(i) == IF i = N THEN MId ELSE MMul(Calibrated(IndexOf(i, i + 1)), Chain(i + 1))
Closed == MMul(Chain(1), MInv(Calibrated(IndexOf(1, N))))
OnLoop(k) == LET p == AllPairs[k] IN p[2] = p[1] + 1 \/ p = <<1, N>>

Init == sensors = <<>> /\ where = 0 /\ by = MId /\ phase = "mount"
GInit == sensors \in Given /\ where = 0 /\ by = MId /\ phase = "mount"
Mount(m) == phase = "mount" /\ N < MaxN /\ sensors' = Append(sensors, m) /\ UNCHANGED <<where, by, phase>>
Calibrate == phase = "mount" /\ N >= 2 /\ phase' = "calibrated" /\ UNCHANGED <<sensors, where, by>>
Deviate(k, d) == /\ phase = "calibrated" /\ where = 0
                 /\ where' = k /\ by' = d
                 /\ UNCHANGED <<sensors, phase>>
Small == \A k \in 1..Len(AllPairs) : MSmall(Calibrated(k), Limit)
Close == /\ phase = "calibrated"
         /\ Small
         /\ phase' = "closed"
         /\ PrintT(<<"@@", ToJson([n |-> N, calibrations |-> [k \in 1..Len(AllPairs) |-> Calibrated(k)],
                                   where |-> where, loop |-> Closed])>>)
         /\ UNCHANGED <<sensors, where, by>>
Next == \/ \E m \in Pool : Mount(m)
        \/ Calibrate
        \/ (phase = "calibrated" /\ \E k \in 1..Len(AllPairs), d \in Deviations : Deviate(k, d))
        \/ Close

(* Consistent calibrations close the loop; a deviation of a member is seen  *)
(* (for two sensors the way back is the way forth), any other is not.       *)
Closes == (phase = "calibrated" /\ where = 0) => Closed = MId
Reveals == (phase = "calibrated" /\ where > 0 /\ by # MId /\ Small) => (Closed # MId <=> (OnLoop(where) /\ N > 2))
=============================================================================
