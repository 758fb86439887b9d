----------------------------- MODULE PoseError ------------------------------
(***************************************************************************)
(* Errors between poses and the evaluation of two trajectories.             *)
(*                                                                         *)
(* A pair of poses is given by two rigid motions.  Its position error is    *)
(* the distance of the translations, kept as exact square; its orientation  *)
(* error the angle of the relative rotation, kept as the relative rotation. *)
(* The orientation threshold is given as a rotation by that angle.          *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS PairSet,      \* pairs <<motion, motion>>
          PosThr,       \* set of <<numerator, denominator>>
          RotThr,       \* set of rotations (quaternions with Re >= 0)
          MaxLen

VARIABLES pairs, pthr, rthr, flags, sum, done
vars == <<pairs, pthr, rthr, flags, sum, done>>

(* Squared distance as <<numerator, denominator>>. *)
Dist2(p) ==
  LET a == p[1]  b == p[2]
      v == VSub(VScale(b.d, a.t), VScale(a.d, b.t))
      g == Gcd(GcdSeq(v, 1), a.d * b.d)
      w == DivSeq(v, g)
      d == (a.d * b.d) \div g
  IN  <<VDot(w, w), d * d>>
Relative(p) == QCanon(QMul(p[1].q, QConj(p[2].q)))
(* Compares the angle of rotation q with that of r, both with Re >= 0. *)
CompareAngle(q, r) ==
  LET l == Re(r) * Re(r) * QNorm2(q)
      s == Re(q) * Re(q) * QNorm2(r)
  IN  IF s > l THEN -1 ELSE IF s = l THEN 0 ELSE 1
ComparePos(d, t) ==
  LET l == d[1] * t[2] * t[2]
      r == t[1] * t[1] * d[2]
  IN  IF l < r THEN -1 ELSE IF l = r THEN 0 ELSE 1

Flag(p) ==
  LET c == ComparePos(Dist2(p), pthr)
      a == CompareAngle(Relative(p), rthr)
  IN  CASE c = 1 \/ a = 1 -> "out"
        [] c = -1 /\ a = -1 -> "in"
        [] c = 0 /\ a = -1 -> "atpos"      \* exactly at the position threshold
        [] a = 0 /\ Re(rthr) * Re(rthr) = QNorm2(rthr) -> "out"   \* not below zero degrees
        [] OTHER -> "open"                 \* at the angle threshold, up to rounding

RatAdd(a, b) == LET n == a[1] * b[2] + b[1] * a[2]  d == a[2] * b[2]  g == Gcd(n, d) IN <<n \div g, d \div g>>

Init == /\ pairs = <<>>
        /\ pthr \in PosThr
        /\ rthr \in RotThr
        /\ flags = <<>>
        /\ sum = <<0, 1>>
        /\ done = FALSE
Add(p) == /\ ~done
          /\ Len(pairs) < MaxLen
          /\ pairs' = Append(pairs, p)
          /\ flags' = Append(flags, Flag(p))
          /\ sum' = RatAdd(sum, Dist2(p))
          /\ UNCHANGED <<pthr, rthr, done>>
Evaluate == /\ ~done
            /\ Len(pairs) > 0
            /\ done' = TRUE
            /\ PrintT(<<"@@", ToJson([pairs |-> pairs, pthr |-> pthr, rthr |-> rthr, flags |-> flags, sum |-> sum,
                                      rel |-> [i \in 1..Len(pairs) |-> Relative(pairs[i])]])>>)
            /\ UNCHANGED <<pairs, pthr, rthr, flags, sum>>
Next == (\E p \in PairSet : Add(p)) \/ Evaluate

---------------------------------------------------------------------------
Swap(p) == <<p[2], p[1]>>
Symmetric == \A i \in 1..Len(pairs) :
               /\ Dist2(Swap(pairs[i])) = Dist2(pairs[i])
               /\ CompareAngle(Relative(Swap(pairs[i])), Relative(pairs[i])) = 0
ZeroIff == \A i \in 1..Len(pairs) :
               (Dist2(pairs[i])[1] = 0 /\ Relative(pairs[i]) = QOne) <=> (pairs[i][1] = pairs[i][2])
=============================================================================
