----------------------------- MODULE Informative -----------------------------
(***************************************************************************)
(* What a calibration has to refuse.  Extends the hand-eye problem by what  *)
(* goes wrong in practice: the eye sees another motion than the hand made   *)
(* (an outlier), the mounting slips, or a trajectory does not start at its  *)
(* reference pose.                                                          *)
(***************************************************************************)
EXTENDS HandEye

CONSTANTS Seen,        \* motions the eye sees instead (unit norm is rational)
          Slips,       \* changes of X
          Starts,      \* first poses that are not the identity
          Tolerances   \* in thousandths

VARIABLES event        \* what went wrong: "none", "outlier", "slip", "start"
ivars == <<x, hand, eye, reported, event>>

(* Square root of a perfect square. *)
RECURSIVE Root(_, _)
Root(n, r) == IF r * r >= n THEN r ELSE Root(n, r + 1)
Square(n) == LET r == Root(n, 0) IN r * r = n
UnitNorm(q) == Root(QNorm2(q), 0)

(* Differences of the scalar parts as <<numerator, denominator>>, q and -q  *)
(* being the same: scalar parts are compared with Re >= 0.                  *)
DiffRe(a, b) ==
  LET na == UnitNorm(a.q)  nb == UnitNorm(b.q) IN <<Abs(Re(a.q) * nb - Re(b.q) * na), na * nb>>
DiffPitch(a, b) ==
  LET na == 2 * a.d * UnitNorm(a.q)  nb == 2 * b.d * UnitNorm(b.q) IN <<Abs(Pitch(a) * nb - Pitch(b) * na), na * nb>>
Exceeds(diff, tol) == diff[1] * 1000 > tol * diff[2]
(* Close to the tolerance the verdict is left to rounding. *)
Undecided(diff, tol) == Abs(diff[1] * 1000 - tol * diff[2]) <= (tol * diff[2]) \div 50 + 1

Verdict(a, b, tol) ==
  LET r == DiffRe(a, b)  p == DiffPitch(a, b)
  IN  CASE Exceeds(r, tol) /\ ~Undecided(r, tol) -> "refuse"
        [] Exceeds(p, tol) /\ ~Undecided(p, tol) -> "refuse"
        [] ~Exceeds(r, tol) /\ ~Undecided(r, tol) /\ ~Exceeds(p, tol) /\ ~Undecided(p, tol) -> "accept"
        [] OTHER -> "open"

IInit == Init /\ event = [kind |-> "none"]
(* The eye sees b instead of the i-th motion a of the hand. *)
Outlier(i, b) ==
  /\ event.kind = "none"
  /\ ~reported
  /\ Len(hand) = MaxLen + 1
  /\ Informative(hand)
  /\ hand[i] # b
  /\ Square(QNorm2(hand[i].q))
  /\ event' = [kind |-> "outlier", at |-> i - 1, verdicts |-> [t \in 1..Len(Tolerances) |-> Verdict(hand[i], b, Tolerances[t])],
               re |-> DiffRe(hand[i], b), pitch |-> DiffPitch(hand[i], b)]
  /\ \E c \in {EyeMotion(b)} : MSmall(c, Bound) /\ eye' = [eye EXCEPT ![i] = c]
  /\ UNCHANGED <<x, hand, reported>>
(* The mounting changes before the last motion. *)
Slip(y) ==
  /\ event.kind = "none"
  /\ ~reported
  /\ Len(hand) = MaxLen
  /\ event' = [kind |-> "slip"]
  /\ x' = MMul(x, y)
  /\ MSmall(x', Bound)
  /\ UNCHANGED <<hand, eye, reported>>
(* One or both trajectories start elsewhere. *)
Start(a, who) ==
  /\ event.kind = "none"
  /\ ~reported
  /\ Len(hand) = MaxLen + 1
  /\ event' = [kind |-> "start", at |-> who]
  /\ hand' = IF who = "eye" THEN hand ELSE [hand EXCEPT ![1] = a]
  /\ eye' = IF who = "hand" THEN eye ELSE [eye EXCEPT ![1] = a]
  /\ UNCHANGED <<x, reported>>

IReport ==
  /\ ~reported
  /\ Len(hand) = MaxLen + 1 \/ (Len(hand) > 2 /\ event.kind = "none")
  /\ reported' = TRUE
  /\ PrintT(<<"@@", ToJson([x |-> x, hand |-> hand, eye |-> eye, two |-> TwoAxes(hand), opposed |-> Opposed(hand), event |-> event])>>)
  /\ UNCHANGED <<x, hand, eye, event>>

INext == \/ (\E a \in Motions : Move(a)) /\ UNCHANGED event
         \/ \E i \in 2..(MaxLen + 1), b \in Seen : Outlier(i, b)
         \/ \E y \in Slips : Slip(y)
         \/ \E a \in Starts, who \in {"hand", "eye", "both"} : Start(a, who)
         \/ IReport

---------------------------------------------------------------------------
IXExplains == event.kind = "none" => XExplains
IIdentifies == event.kind = "none" => Identifies
IAmbiguous == event.kind = "none" => Ambiguous
ICongruent == event.kind \in {"none", "slip"} => Congruent
(* An outlier beyond some tolerance is not explained by X. *)
OutlierSeen == (event.kind = "outlier" /\ \E t \in 1..Len(Tolerances) : event.verdicts[t] = "refuse") => ~Explains(x)
=============================================================================
