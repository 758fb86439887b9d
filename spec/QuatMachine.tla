---------------------------- MODULE QuatMachine -----------------------------
(***************************************************************************)
(* A machine with one register over the quaternion operations of the       *)
(* library.  Every action is one call; `reg' is what the result has to be. *)
(* Exhaustive configurations take all operands of a pool, simulated ones   *)
(* long sequences of calls.                                                *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS Start,      \* quaternions the register may hold initially
          Operands,   \* second operands
          Scalars,    \* scalar operands, [n, d]
          Vectors,    \* integer vectors to rotate
          Steps,      \* calls per behaviour
          Bound,      \* largest numerator and denominator
          Record      \* record the behaviour and print it at the end

VARIABLES reg, step, hist
vars == <<reg, step, hist>>

Rat(q) == QRat(q, 1)
Init == /\ reg \in {Rat(q) : q \in Start}
        /\ step = 0
        /\ hist = <<>>

Small(a) == /\ \A i \in 1..4 : Abs(a.n[i]) <= Bound
            /\ a.d <= Bound

Call(op, arg, res) ==
  /\ step < Steps
  /\ Small(res)
  /\ reg' = res
  /\ step' = step + 1
  /\ IF Record
     THEN hist' = Append(hist, [op |-> op, before |-> reg, arg |-> arg, after |-> res])
     ELSE /\ hist' = hist
          /\ PrintT(<<"@@", ToJson([op |-> op, before |-> reg, arg |-> arg, after |-> res])>>)

Add(b) == Call("add", Rat(b), RAdd(reg, Rat(b)))
Sub(b) == Call("sub", Rat(b), RSub(reg, Rat(b)))
RSubtract(b) == Call("rsub", Rat(b), RSub(Rat(b), reg))
Neg == Call("neg", Rat(QOne), RNeg(reg))
Mul(b) == Call("mul", Rat(b), RMul(reg, Rat(b)))
PreMul(b) == Call("premul", Rat(b), RMul(Rat(b), reg))
Div(b) == ~RZero(Rat(b)) /\ Call("div", Rat(b), RDiv(reg, Rat(b)))
PreDiv(b) == ~RZero(reg) /\ Call("prediv", Rat(b), RDiv(Rat(b), reg))
Scale(s) == Call("scale", s, QRat(QScale(s.n, reg.n), s.d * reg.d))
PreScale(s) == Call("prescale", s, QRat(QScale(s.n, reg.n), s.d * reg.d))
Unscale(s) == s.n # 0 /\ Call("unscale", s, QRat(QScale(s.d, reg.n), s.n * reg.d))
Conj == Call("conj", Rat(QOne), RConj(reg))
Inv == ~RZero(reg) /\ Call("inv", Rat(QOne), RInv(reg))
Copy == Call("copy", Rat(QOne), reg)
(* Both operands are the same object.  (TLC's integers have 32 bits.) *)
Tame == reg.d <= 50 /\ \A i \in 1..4 : Abs(reg.n[i]) <= 50
Twice == Call("twice", Rat(QOne), RAdd(reg, reg))
Minus == Call("minus", Rat(QOne), RSub(reg, reg))
Square == Tame /\ Call("square", Rat(QOne), RMul(reg, reg))
Ratio == Tame /\ ~RZero(reg) /\ Call("ratio", Rat(QOne), RDiv(reg, reg))

Finish == /\ Record
          /\ step = Steps
          /\ step' = Steps + 1
          /\ PrintT(<<"@@", ToJson(hist)>>)
          /\ UNCHANGED <<reg, hist>>

Next == \/ \E b \in Operands : Add(b) \/ Sub(b) \/ RSubtract(b) \/ Mul(b) \/ PreMul(b) \/ Div(b) \/ PreDiv(b)
        \/ \E s \in Scalars : Scale(s) \/ PreScale(s) \/ Unscale(s)
        \/ Neg \/ Conj \/ Inv \/ Copy
        \/ Twice \/ Minus \/ Square \/ Ratio
        \/ Finish

---------------------------------------------------------------------------
(* Laws of the algebra, checked in every state for all operands. *)
NormMultiplicative ==
  \A b \in Operands : QNorm2(QMul(reg.n, b)) = QNorm2(reg.n) * QNorm2(b)
InverseIsInverse ==
  ~RZero(reg) => /\ RMul(reg, RInv(reg)) = Rat(QOne)
                 /\ RMul(RInv(reg), reg) = Rat(QOne)
ConjReverses ==
  \A b \in Operands : RConj(RMul(reg, Rat(b))) = RMul(RConj(Rat(b)), RConj(reg))
Associative ==
  \A b, c \in Operands : QMul(QMul(reg.n, b), c) = QMul(reg.n, QMul(b, c))
Distributive ==
  \A b, c \in Operands : QMul(reg.n, QAdd(b, c)) = QAdd(QMul(reg.n, b), QMul(reg.n, c))
(* The matrix is the rotation, and q and -q rotate alike. *)
MatrixIsRotation ==
  \A v \in Vectors : /\ MatVec(RotMat(reg.n), v) = RotNum(reg.n, v)
                     /\ RotNum(QNeg(reg.n), v) = RotNum(reg.n, v)
RotationComposes ==
  \A v \in Vectors, b \in Operands :
    RotNum(QMul(reg.n, b), v) = RotNum(reg.n, RotNum(b, v))
=============================================================================
