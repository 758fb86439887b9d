------------------------------ MODULE HandEye -------------------------------
(***************************************************************************)
(* The hand-eye problem.  A hand moves (relative motions A_i of the hand in *)
(* its base, starting at the identity), the eye is rigidly attached by X,   *)
(* so the eye moves by B_i with A_i X = X B_i.  A behaviour records the     *)
(* motions one by one; once they determine X a calibration has to return    *)
(* X.  If they do not, other transforms explain the motions as well.        *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, FiniteSets

CONSTANTS Xs,         \* hand-to-eye transforms
          Motions,    \* relative hand motions (all rotations below 180 degrees)
          MaxLen,     \* motions per trajectory (without the identity)
          Fixed,      \* further trajectories of any length
          Others,     \* competing transforms for the identifiability law
          Bound,
          EmitAll     \* report uninformative trajectories as well

VARIABLES x, hand, eye, reported
vars == <<x, hand, eye, reported>>

EyeMotion(a) == MMul(MMul(MInv(x), a), x)
RECURSIVE EyeOf(_, _, _)
Init == /\ x \in Xs
        /\ hand = <<MId>>
        /\ eye = <<MId>>
        /\ reported = FALSE

EyeOf(s, i, acc) == IF i > Len(s) THEN acc ELSE EyeOf(s, i + 1, Append(acc, EyeMotion(s[i])))

(* The robot moves on. *)
Move(a) == /\ Len(hand) <= MaxLen
           /\ ~reported
           /\ \E b \in {EyeMotion(a)} : /\ MSmall(b, Bound)
                                        /\ eye' = Append(eye, b)
           /\ hand' = Append(hand, a)
           /\ UNCHANGED <<x, reported>>
(* A whole recording. *)
Recording(s) == /\ Len(hand) = 1
                /\ ~reported
                /\ hand' = <<MId>> \o s
                /\ \E e \in {EyeOf(s, 1, <<MId>>)} : /\ \A i \in 1..Len(e) : MSmall(e[i], Bound)
                                                     /\ eye' = e
                /\ UNCHANGED <<x, reported>>

(* Rotation axes of the hand motions. *)
Axes(s) == {Im(s[i].q) : i \in 1..Len(s)} \ {VZero}
Rotates(s) == Axes(s) # {}
TwoAxes(s) == \E u, v \in Axes(s) : VCross(u, v) # VZero
(* X turns by 180 degrees about an axis perpendicular to all motion axes: *)
(* all sums of hand and eye axes vanish and the method has no solution.   *)
Opposed(s) == Re(x.q) = 0 /\ \A u \in Axes(s) : VDot(u, Im(x.q)) = 0
Informative(s) == TwoAxes(s)

Calibrate ==
  /\ ~reported
  /\ Len(hand) > 1
  /\ (Informative(hand) /\ ~Opposed(hand)) \/ EmitAll
  /\ reported' = TRUE
  /\ PrintT(<<"@@", ToJson([x |-> x, hand |-> hand, eye |-> eye, two |-> TwoAxes(hand), opposed |-> Opposed(hand)])>>)
  /\ UNCHANGED <<x, hand, eye>>

Next == \/ \E a \in Motions : Move(a)
        \/ \E s \in Fixed : Recording(s)
        \/ Calibrate

---------------------------------------------------------------------------
Explains(y) == \A i \in 1..Len(hand) : MMul(hand[i], y) = MMul(y, eye[i])
XExplains == Explains(x)
(* Two axes identify X among all competitors ... *)
Identifies == (Len(hand) <= MaxLen + 1 /\ TwoAxes(hand)) => \A y \in Others : Explains(y) => y = x
(* ... and with parallel axes a motion along and about the common axis is  *)
(* not seen: X may be preceded by it.                                      *)
Ambiguous == (Len(hand) <= MaxLen + 1 /\ ~TwoAxes(hand)) =>
  LET t == CHOOSE v \in {<<1, 0, 0>>} \cup Axes(hand) : Axes(hand) # {} => v \in Axes(hand)
      y == MMul([q |-> QOne, t |-> t, d |-> 1], x)
  IN  y # x /\ Explains(y)
(* The screw invariants of hand and eye agree. *)
Sq(n) == n * n
Congruent == \A i \in 1..Len(hand) :
  LET a == hand[i]  b == eye[i] IN
  Sq(Re(a.q)) * QNorm2(b.q) = Sq(Re(b.q)) * QNorm2(a.q)
=============================================================================
