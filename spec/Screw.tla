------------------------------- MODULE Screw --------------------------------
(***************************************************************************)
(* Screw parameters of rigid motions and their invariance under a change   *)
(* of frame.  A behaviour takes a motion a, expresses it in the frame x    *)
(* (b = x a x^-1), and in a further frame, and so on.  The rotation angle  *)
(* (by the scalar part over the norm) and the translation along the axis   *)
(* (t . axis) of the motion never change, the axis turns with the frame.   *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS Motions, Frames, Depth, Bound

VARIABLES a, b, x, step
vars == <<a, b, x, step>>

Init == a \in Motions /\ b = a /\ x = MId /\ step = 0

Reexpress(f) ==
  /\ step < Depth
  /\ LET y == MMul(f, x)
         c == MConjugate(f, b)
     IN  /\ MSmall(c, Bound) /\ MSmall(y, Bound)
         /\ x' = y
         /\ b' = c
         /\ a' = a
         /\ step' = step + 1
         /\ PrintT(<<"@@", ToJson([a |-> a, b |-> c, x |-> y])>>)

Next == \E f \in Frames : Reexpress(f)

(* Same frame change in one step. *)
OneStep == b = MConjugate(x, a)
(* cos(angle / 2)^2 = Re^2 / N is invariant; Re has the same sign by canonicity. *)
AngleInvariant == Re(a.q) * Re(a.q) * QNorm2(b.q) = Re(b.q) * Re(b.q) * QNorm2(a.q)
(* Translation along the axis, squared: (t.v / d)^2 / |v|^2. *)
Sq(n) == n * n
PitchInvariant ==
  LET va == Im(a.q)  vb == Im(b.q) IN
  IF va = VZero
  THEN vb = VZero /\ VDot(a.t, a.t) * Sq(b.d) = VDot(b.t, b.t) * Sq(a.d)
  ELSE Sq(VDot(a.t, va)) * Sq(b.d) * VDot(vb, vb) = Sq(VDot(b.t, vb)) * Sq(a.d) * VDot(va, va)
(* The axis turns with the frame (up to the sign of the representative). *)
AxisTurns ==
  VCross(Im(b.q), RotNum(x.q, Im(a.q))) = VZero
=============================================================================
