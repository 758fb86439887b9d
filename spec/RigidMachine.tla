---------------------------- MODULE RigidMachine ----------------------------
(***************************************************************************)
(* A machine with one register that holds a rigid motion in one of the     *)
(* forms the library offers, over the operations on dual quaternions and   *)
(* the conversions between forms.  The motion is what an observer may see; *)
(* the form, and for dual quaternions and poses the sign and scale of the  *)
(* representation, must not matter.                                        *)
(*                                                                         *)
(*   "dq"     dual quaternion                                              *)
(*   "pose"   pose vector x y z qx qy qz qw                                *)
(*   "matrix" 4x4 matrix                                                   *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS Motions,    \* motions the register may hold initially
          Operands,   \* motions used as second operand
          Scales,     \* factors (non-zero integers) of the representation
          Points,     \* integer points to transform
          Forms,      \* forms that may be used
          Algebra,    \* TRUE: products, inverses and quotients are enabled
          Steps, Bound, Record,
          LawBound    \* the laws are evaluated for motions up to this size

VARIABLES m, form, step, hist
vars == <<m, form, step, hist>>

Init == /\ m \in Motions
        /\ form \in Forms
        /\ step = 0
        /\ hist = <<>>

Images(a) == [i \in 1..Len(Points) |-> MApply(a, Points[i])]
Event(op, arg, k, res, f) ==
  [op |-> op, before |-> m, from |-> form, arg |-> arg, k |-> k, after |-> res, to |-> f, images |-> Images(res)]

Call(op, arg, k, res, f) ==
  /\ step < Steps
  /\ MSmall(res, Bound)
  /\ m' = res
  /\ form' = f
  /\ step' = step + 1
  /\ IF Record
     THEN hist' = Append(hist, Event(op, arg, k, res, f))
     ELSE /\ hist' = hist
          /\ PrintT(<<"@@", ToJson(Event(op, arg, k, res, f))>>)

InDq == form = "dq"
(* Algebra on dual quaternions. *)
Mul(b, k) == Algebra /\ InDq /\ Call("mul", b, k, MMul(m, b), "dq")
PreMul(b, k) == Algebra /\ InDq /\ Call("premul", b, k, MMul(b, m), "dq")
Div(b, k) == Algebra /\ InDq /\ Call("div", b, k, MDiv(m, b), "dq")
PreDiv(b, k) == Algebra /\ InDq /\ Call("prediv", b, k, MDiv(b, m), "dq")
Inverse == Algebra /\ InDq /\ Call("inverse", MId, 1, MInv(m), "dq")
(* Changes of representation: the motion stays. *)
Rescale(k) == Call("rescale", MId, k, m, form)
Normalize == InDq /\ Call("normalize", MId, 1, m, "dq")
Positive == InDq /\ Call("positive", MId, 1, m, "dq")
Copy == InDq /\ Call("copy", MId, 1, m, "dq")
(* Conversions. *)
Convert(f) == f # form /\ (InDq \/ f = "dq") /\ Call("convert", MId, 1, m, f)
(* Both operands are the same object. *)
Square == Algebra /\ InDq /\ MSmall(m, 10) /\ Call("square", MId, 1, MMul(m, m), "dq")
Ratio == Algebra /\ InDq /\ MSmall(m, 10) /\ Call("ratio", MId, 1, MDiv(m, m), "dq")
(* A unit dual quaternion: the conjugate is the inverse. *)
Conjugate == Algebra /\ InDq /\ Call("conjugate", MId, 1, MInv(m), "dq")

Finish == /\ Record
          /\ step = Steps
          /\ step' = Steps + 1
          /\ PrintT(<<"@@", ToJson(hist)>>)
          /\ UNCHANGED <<m, form, hist>>

Next == \/ \E b \in Operands, k \in Scales : Mul(b, k) \/ PreMul(b, k) \/ Div(b, k) \/ PreDiv(b, k)
        \/ Inverse \/ Square \/ Ratio \/ Conjugate \/ Normalize \/ Positive \/ Copy
        \/ \E k \in Scales : Rescale(k)
        \/ \E f \in Forms : Convert(f)
        \/ Finish

---------------------------------------------------------------------------
(* Laws of the group of rigid motions, in every state for all operands. *)
PointAt(x) == x[1]   \* numerator of an image
InverseLaw == MSmall(m, LawBound) =>
              /\ MMul(m, MInv(m)) = MId
              /\ MMul(MInv(m), m) = MId
QuotientLaw == MSmall(m, LawBound) => \A b \in Operands : MMul(MDiv(m, b), b) = m
Associative == MSmall(m, LawBound) => \A b, c \in Operands : MMul(MMul(m, b), c) = MMul(m, MMul(b, c))
(* (m b)(p) = m(b(p)): evaluated with rationals. *)
ApplyRat(a, num, den) ==
  LET n == QNorm2(a.q)
      v == VAdd(VScale(n * den, a.t), VScale(a.d, RotNum(a.q, num)))
      d == a.d * n * den
      g == Gcd(GcdSeq(v, 1), d)
  IN  <<DivSeq(v, g), d \div g>>
Composition == MSmall(m, LawBound) => \A b \in Operands, i \in 1..Len(Points) :
  LET x == MApply(b, Points[i]) IN MApply(MMul(m, b), Points[i]) = ApplyRat(m, x[1], x[2])
(* Rigid: distances are kept. *)
Rigid == MSmall(m, LawBound) => \A i, j \in 1..Len(Points) :
  LET x == MApply(m, Points[i])
      y == MApply(m, Points[j])
      dx == VSub(VScale(y[2], x[1]), VScale(x[2], y[1]))
      dp == VSub(Points[i], Points[j])
  IN  VDot(dx, dx) = VDot(dp, dp) * x[2] * x[2] * y[2] * y[2]
=============================================================================
