----------------------------- MODULE Interpolate ----------------------------
(***************************************************************************)
(* A recorded trajectory: poses at increasing instants (ticks).  Between    *)
(* two recorded poses the body turns by the same rotation and moves by the  *)
(* same amount in every tick, and by less than half a turn in total, which  *)
(* is what interpolation in time has to reproduce.  The recording is made   *)
(* segment by segment; the state carries the pose of every tick.            *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, FiniteSets

CONSTANTS Starts, Rates, Moves, Gaps, MaxSegments, Bound

VARIABLES stamps, poses, phase
vars == <<stamps, poses, phase>>

Last(s) == s[Len(s)]

Init == /\ stamps = <<0>>
        /\ \E q \in Starts : poses = <<[q |-> q, p |-> VZero]>>
        /\ phase = "record"

(* Poses at the ticks of a segment; a turn that would reach half a turn or  *)
(* exceed the bound of the arithmetic is not recorded.                      *)
RECURSIVE Turns(_, _, _)
Turns(q, r, k) == IF k = 0 THEN <<>> ELSE LET n == QPrimitive(QMul(q, r)) IN <<n>> \o Turns(n, r, k - 1)
Short(r, k) == \A j \in 1..k : Re(QPow(r, j)) > 0
Segment(r, m, g) ==
  /\ phase = "record"
  /\ Len(stamps) <= MaxSegments
  /\ Short(r, g)
  /\ \E t \in {Turns(Last(poses).q, r, g)} :
       /\ \A k \in 1..g : \A i \in 1..4 : Abs(t[k][i]) <= Bound
       /\ poses' = poses \o [k \in 1..g |-> [q |-> t[k], p |-> VAdd(Last(poses).p, VScale(k, m))]]
  /\ stamps' = Append(stamps, Last(stamps) + g)
  /\ UNCHANGED phase
(* The whole trajectory is asked for, tick by tick. *)
Ask == /\ phase = "record"
       /\ Len(stamps) = MaxSegments + 1
       /\ phase' = "done"
       /\ PrintT(<<"@@", ToJson([stamps |-> stamps, poses |-> poses])>>)
       /\ UNCHANGED <<stamps, poses>>
Next == (\E r \in Rates, m \in Moves, g \in Gaps : Segment(r, m, g)) \/ Ask

(* ---- laws ---- *)
Complete == Len(poses) = Last(stamps) + 1
At(t) == poses[t + 1]
(* Within a segment, positions are on a line and relative rotations equal.  *)
Uniform == \A i \in 1..(Len(stamps) - 1) : \A t \in stamps[i]..(stamps[i + 1] - 2) :
             /\ VSub(At(t + 1).p, At(t).p) = VSub(At(t + 2).p, At(t + 1).p)
             /\ QCanon(QMul(QConj(At(t).q), At(t + 1).q)) = QCanon(QMul(QConj(At(t + 1).q), At(t + 2).q))
=============================================================================
