------------------------------- MODULE Spoil --------------------------------
(***************************************************************************)
(* Perturbation of a calibration.  Numbers are integers (millionths of a    *)
(* second, metre or radian in recorded perturbations).  A perturbation adds *)
(* dt to the time offset, the vector v to the translation and turns the     *)
(* rotation by an angle, each of a magnitude within its range, and reports  *)
(* these amounts.  Only the angle of a rotation is kept.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ranges, Offsets, Vectors, Angles, MaxSteps, Recorded, Eps

VARIABLES now, before, report, range, steps, verdict, r
vars == <<now, before, report, range, steps, verdict, r>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Within(x, lo, hi) == x >= lo - Eps /\ x <= hi + Eps

(* ---- the perturbation on a small grid ---- *)
Start == [t |-> 0, p |-> <<0, 0, 0>>, a |-> 0]
Init == /\ now = Start /\ before = Start
        /\ report = [dt |-> 0, v |-> <<0, 0, 0>>, a |-> 0]
        /\ range \in Ranges
        /\ steps = 0 /\ verdict = "none" /\ r = 0
Perturb(dt, v, a) == /\ steps < MaxSteps
                     /\ Abs(dt) >= range.t[1] /\ Abs(dt) <= range.t[2]
                     /\ Sq(v) >= range.p[1] * range.p[1] /\ Sq(v) <= range.p[2] * range.p[2]
                     /\ a >= range.a[1] /\ a <= range.a[2]
                     /\ before' = now
                     /\ now' = [t |-> now.t + dt, p |-> Add(now.p, v), a |-> a]
                     /\ report' = [dt |-> dt, v |-> v, a |-> a]
                     /\ steps' = steps + 1
                     /\ UNCHANGED <<range, verdict, r>>
Next == \E dt \in Offsets, v \in Vectors, a \in Angles : Perturb(dt, v, a)

(* What holds between a calibration, the perturbed one and the report.      *)
(* turn is the angle between the two rotations.                             *)
Exact(b, n, turn, rep) ==
  /\ Abs((n.t - b.t) - rep.dt) <= Eps
  /\ \A i \in 1..3 : Abs((n.p[i] - b.p[i]) - rep.v[i]) <= Eps
  /\ Abs(turn - rep.a) <= Eps
InRange(rep, len, rg) ==
  /\ Within(Abs(rep.dt), rg.t[1], rg.t[2])
  /\ Within(len, rg.p[1], rg.p[2])
  /\ Within(rep.a, rg.a[1], rg.a[2])
ExactReport == steps > 0 => Exact(before, now, now.a, report)

(* ---- recorded perturbations ---- *)
RInit == /\ r \in 1..Len(Recorded)
         /\ now = Recorded[r].now /\ before = Recorded[r].before
         /\ report = Recorded[r].report /\ range = Recorded[r].range
         /\ steps = 1 /\ verdict = "none"
Judgement == LET c == Recorded[r] IN
  CASE ~c.kept -> "the original was changed"
    [] ~Exact(before, now, c.turn, report) -> "the report is not the difference"
    [] ~InRange(report, c.len, range) -> "out of range"
    [] OTHER -> "ok"
Judge == /\ verdict = "none"
         /\ verdict' = Judgement
         /\ PrintT(<<"@@", ToJson([r |-> r, verdict |-> verdict'])>>)
         /\ UNCHANGED <<now, before, report, range, steps, r>>
RNext == Judge
=============================================================================
