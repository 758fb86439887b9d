-------------------------------- MODULE Quat --------------------------------
(***************************************************************************)
(* Exact arithmetic for rotations and rigid motions.                       *)
(*                                                                         *)
(* A quaternion is a 4-tuple of integers in the order <<x, y, z, w>>.  A   *)
(* rational quaternion is a record [n |-> quaternion, d |-> positive Int]. *)
(* A rotation is an integer quaternion of any non-zero norm, read          *)
(* projectively (q and k*q are the same rotation).  A rigid motion is      *)
(* [q |-> rotation, t |-> integer 3-tuple, d |-> positive Int] and maps p  *)
(* to R(q) p + t / d.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdSeq(_, _)
GcdSeq(s, i) == IF i > Len(s) THEN 0 ELSE Gcd(s[i], GcdSeq(s, i + 1))
DivSeq(s, g) == [i \in 1..Len(s) |-> IF s[i] < 0 THEN -((-s[i]) \div g) ELSE s[i] \div g]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* Vectors. *)
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
VDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VCross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
VZero == <<0, 0, 0>>

---------------------------------------------------------------------------
(* Hamilton's algebra. *)
QOne == <<0, 0, 0, 1>>
Im(q) == <<q[1], q[2], q[3]>>
Re(q) == q[4]
QAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
QSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4]>>
QNeg(a) == <<-a[1], -a[2], -a[3], -a[4]>>
QScale(k, a) == <<k * a[1], k * a[2], k * a[3], k * a[4]>>
(* (v1 + s1)(v2 + s2) = s1 v2 + s2 v1 + v1 x v2 + (s1 s2 - v1 . v2) *)
QMul(a, b) ==
  LET v == VAdd(VAdd(VScale(Re(a), Im(b)), VScale(Re(b), Im(a))), VCross(Im(a), Im(b)))
  IN  <<v[1], v[2], v[3], Re(a) * Re(b) - VDot(Im(a), Im(b))>>
QConj(a) == <<-a[1], -a[2], -a[3], a[4]>>
QNorm2(a) == VDot(Im(a), Im(a)) + Re(a) * Re(a)
QDot(a, b) == VDot(Im(a), Im(b)) + Re(a) * Re(b)
QPrimitive(a) == DivSeq(a, GcdSeq(a, 1))
(* One representative of {q, -q}: first non-zero of w, x, y, z positive. *)
QCanon(a) ==
  LET p == QPrimitive(a)
      neg == \/ p[4] < 0
             \/ p[4] = 0 /\ p[1] < 0
             \/ p[4] = 0 /\ p[1] = 0 /\ p[2] < 0
             \/ p[4] = 0 /\ p[1] = 0 /\ p[2] = 0 /\ p[3] < 0
  IN  IF neg THEN QNeg(p) ELSE p
RECURSIVE QPow(_, _)
QPow(a, k) ==
  IF k = 0 THEN QOne
  ELSE CHOOSE r \in {QMul(a, p) : p \in {QPow(a, k - 1)}} : TRUE   \* evaluates the power once

(* q v q* (times the squared norm of q), via the quaternion product. *)
RotNum(q, v) == Im(QMul(QMul(q, <<v[1], v[2], v[3], 0>>), QConj(q)))
(* The same as a matrix, as given in textbooks, times the squared norm. *)
RotMat(q) ==
  LET x == q[1]  y == q[2]  z == q[3]  w == q[4]
  IN <<<<w*w + x*x - y*y - z*z, 2*(x*y - z*w), 2*(x*z + y*w)>>,
       <<2*(x*y + z*w), w*w - x*x + y*y - z*z, 2*(y*z - x*w)>>,
       <<2*(x*z - y*w), 2*(y*z + x*w), w*w - x*x - y*y + z*z>>>>
MatVec(m, v) == <<VDot(m[1], v), VDot(m[2], v), VDot(m[3], v)>>

---------------------------------------------------------------------------
(* Rational quaternions. *)
QRat(n, d) ==
  LET g == Gcd(GcdSeq(n, 1), d)
      h == IF d < 0 THEN -g ELSE g
  IN  IF d < 0 THEN [n |-> QNeg(DivSeq(n, g)), d |-> (-d) \div g] ELSE [n |-> DivSeq(n, g), d |-> d \div g]
RAdd(a, b) == QRat(QAdd(QScale(b.d, a.n), QScale(a.d, b.n)), a.d * b.d)
RSub(a, b) == QRat(QSub(QScale(b.d, a.n), QScale(a.d, b.n)), a.d * b.d)
RNeg(a) == [n |-> QNeg(a.n), d |-> a.d]
RMul(a, b) == QRat(QMul(a.n, b.n), a.d * b.d)
RScale(k, a) == QRat(QScale(k, a.n), a.d)
RUnscale(k, a) == QRat(a.n, k * a.d)
RConj(a) == [n |-> QConj(a.n), d |-> a.d]
(* inverse: conjugate / squared norm *)
RInv(a) == QRat(QScale(a.d, QConj(a.n)), QNorm2(a.n))
RDiv(a, b) == RMul(a, RInv(b))
RZero(a) == a.n = <<0, 0, 0, 0>>

---------------------------------------------------------------------------
(* Rigid motions. *)
Motion(q, t, d) ==
  LET g == Gcd(GcdSeq(t, 1), d) IN [q |-> QCanon(q), t |-> DivSeq(t, g), d |-> d \div g]
MId == [q |-> QOne, t |-> VZero, d |-> 1]
(* (a b)(p) = a(b(p)) *)
MProduct(a, b) ==
  LET n == QNorm2(a.q)
      r == RotNum(a.q, b.t)                    \* R(a) b.t * n * b.d
  IN  Motion(QMul(a.q, b.q), VAdd(VScale(n * b.d, a.t), VScale(a.d, r)), a.d * b.d * n)
(* Evaluates its arguments once. *)
MMul(x, y) == CHOOSE r \in {MProduct(a, b) : a \in {x}, b \in {y}} : TRUE
(* a^-1(p) = R^-1 (p - t) *)
MInverse(a) ==
  LET n == QNorm2(a.q)
      r == RotNum(QConj(a.q), a.t)
  IN  Motion(QConj(a.q), VScale(-1, r), a.d * n)
MInv(x) == CHOOSE r \in {MInverse(a) : a \in {x}} : TRUE
MDiv(a, b) == MMul(a, MInv(b))
(* Image of the integer point p as <<numerator vector, denominator>>. *)
MApply(a, p) ==
  LET n == QNorm2(a.q)
      r == RotNum(a.q, p)
      v == VAdd(VScale(n, a.t), VScale(a.d, r))
      g == Gcd(GcdSeq(v, 1), a.d * n)
  IN  <<DivSeq(v, g), (a.d * n) \div g>>
(* x a x^-1 : the motion a expressed in another frame. *)
MConjugate(x, a) == MMul(MMul(x, a), MInv(x))
RECURSIVE MPow(_, _)
MPow(a, k) == IF k = 0 THEN MId ELSE MMul(a, MPow(a, k - 1))

(* Magnitude of a motion, used to bound exploration. *)
MSmall(a, k) == /\ \A i \in 1..4 : Abs(a.q[i]) <= k
                /\ \A i \in 1..3 : Abs(a.t[i]) <= k
                /\ a.d <= k
(* Screw invariants: angle by <<Re, |q|^2>>, translation along the axis by t.v *)
Pitch(a) == VDot(a.t, Im(a.q))
=============================================================================
