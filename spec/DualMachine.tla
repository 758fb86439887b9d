----------------------------- MODULE DualMachine ----------------------------
(***************************************************************************)
(* A machine with one register over the dual quaternion operations of the  *)
(* library, for dual quaternions in general: r + eps e with eps^2 = 0,     *)
(* whether or not they stand for a rigid motion.  Every action is one      *)
(* call; `reg' is what the result has to be.  Queries leave it unchanged.  *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS Start,      \* dual quaternions the register may hold initially, [r, e] of integer quaternions
          Operands,   \* second operands
          Scalars,    \* scalar operands, [n, d]
          Nudges,     \* amounts by which one component differs: "none", "negligible", "visible"
          Steps,      \* calls per behaviour
          Bound,      \* largest numerator and denominator
          Record      \* record the behaviour and print it at the end

VARIABLES reg, step, hist
vars == <<reg, step, hist>>

Rat(q) == QRat(q, 1)
Dual(x) == [r |-> Rat(x.r), e |-> Rat(x.e)]
DOne == [r |-> Rat(QOne), e |-> Rat(<<0, 0, 0, 0>>)]
DAdd(a, b) == [r |-> RAdd(a.r, b.r), e |-> RAdd(a.e, b.e)]
DSub(a, b) == [r |-> RSub(a.r, b.r), e |-> RSub(a.e, b.e)]
(* (r1 + eps e1)(r2 + eps e2) = r1 r2 + eps (r1 e2 + e1 r2) *)
DMul(a, b) == [r |-> RMul(a.r, b.r), e |-> RAdd(RMul(a.r, b.e), RMul(a.e, b.r))]
DConj(a) == [r |-> RConj(a.r), e |-> RConj(a.e)]
DScale(n, d, a) == [r |-> QRat(QScale(n, a.r.n), d * a.r.d), e |-> QRat(QScale(n, a.e.n), d * a.e.d)]
(* 1 / (r + eps e) = 1/r - eps 1/r e 1/r *)
DInv(a) == [r |-> RInv(a.r), e |-> RNeg(RMul(RMul(RInv(a.r), a.e), RInv(a.r)))]
DDiv(a, b) == DMul(a, DInv(b))
(* half the sum with the conjugate: <<0, 0, 0, w>> of both parts *)
DScalar(a) == [r |-> QRat(<<0, 0, 0, a.r.n[4]>>, a.r.d), e |-> QRat(<<0, 0, 0, a.e.n[4]>>, a.e.d)]
DPositive(a) == IF a.r.n[4] < 0 THEN DScale(-1, 1, a) ELSE a
(* norm = sqrt(N) + eps D / sqrt(N) *)
Invertible(a) == ~RZero(a.r)
NormR(a) == <<QNorm2(a.r.n), a.r.d * a.r.d>>
NormE(a) == <<QDot(a.r.n, a.e.n), a.r.d * a.e.d>>
IsUnit(a) == NormR(a)[1] = NormR(a)[2] /\ NormE(a)[1] = 0

Init == /\ reg \in {Dual(x) : x \in Start}
        /\ step = 0
        /\ hist = <<>>

Small(a) == \A p \in {a.r, a.e} : p.d <= Bound /\ \A i \in 1..4 : Abs(p.n[i]) <= Bound
(* TLC's integers have 32 bits. *)
Tame(a) == \A p \in {a.r, a.e} : p.d <= 20 /\ \A i \in 1..4 : Abs(p.n[i]) <= 20

Observed(a) == [value |-> a, norm2 |-> NormR(a), dot |-> NormE(a), unit |-> IsUnit(a)]
Log(rec) == IF Record
            THEN hist' = Append(hist, rec)
            ELSE hist' = hist /\ PrintT(<<"@@", ToJson(rec)>>)
Call(op, arg, res) ==
  /\ step < Steps
  /\ Small(res)
  /\ reg' = res
  /\ step' = step + 1
  /\ Log([op |-> op, before |-> reg, arg |-> arg, after |-> Observed(res)])
Query(op, arg, answer) ==
  /\ step < Steps
  /\ reg' = reg
  /\ step' = step + 1
  /\ Log([op |-> op, before |-> reg, arg |-> arg, answer |-> answer])

Add(b) == Call("add", b, DAdd(reg, b))
Sub(b) == Call("sub", b, DSub(reg, b))
RSubtract(b) == Call("rsub", b, DSub(b, reg))
Mul(b) == Call("mul", b, DMul(reg, b))
PreMul(b) == Call("premul", b, DMul(b, reg))
Div(b) == Invertible(b) /\ Tame(reg) /\ Call("div", b, DDiv(reg, b))
PreDiv(b) == Invertible(reg) /\ Tame(reg) /\ Call("prediv", b, DDiv(b, reg))
Scale(s) == Call("scale", s, DScale(s.n, s.d, reg))
PreScale(s) == Call("prescale", s, DScale(s.n, s.d, reg))
Unscale(s) == s.n # 0 /\ Call("unscale", s, DScale(s.d, s.n, reg))
Conj == Call("conj", DOne, DConj(reg))
Inv == Invertible(reg) /\ Tame(reg) /\ Call("inv", DOne, DInv(reg))
Scalar == Call("scalar", DOne, DScalar(reg))
Copy == Call("copy", DOne, reg)
Positive == Invertible(reg) /\ Call("positive", DOne, DPositive(reg))
(* Both operands are the same object. *)
Twice == Call("twice", DOne, DAdd(reg, reg))
Minus == Call("minus", DOne, DSub(reg, reg))
Square == Tame(reg) /\ Call("square", DOne, DMul(reg, reg))
Ratio == Tame(reg) /\ Invertible(reg) /\ Call("ratio", DOne, DDiv(reg, reg))
(* Equality with another one, and with itself but for one component. *)
Compare(b) == Query("compare", b, reg = b)
Nudged(i, k) == Query("nudged", [component |-> i, by |-> k], k # "visible")
(* Is the register, divided by its norm as a dual number, normalized, if then *)
(* the norm is changed by the given amounts? *)
Gauge(k, l) == Invertible(reg) /\ Query("gauge", [real |-> k, dual |-> l], k # "visible" /\ l # "visible")

Finish == /\ Record
          /\ step = Steps
          /\ step' = Steps + 1
          /\ PrintT(<<"@@", ToJson(hist)>>)
          /\ UNCHANGED <<reg, hist>>

Next == \/ \E x \in Operands :
             LET b == Dual(x)
             IN  Add(b) \/ Sub(b) \/ RSubtract(b) \/ Mul(b) \/ PreMul(b) \/ Div(b) \/ PreDiv(b) \/ Compare(b)
        \/ \E s \in Scalars : Scale(s) \/ PreScale(s) \/ Unscale(s)
        \/ Conj \/ Inv \/ Scalar \/ Copy \/ Positive
        \/ Twice \/ Minus \/ Square \/ Ratio
        \/ \E k \in Nudges : \/ \E i \in 1..8 : Nudged(i, k)
                             \/ \E l \in Nudges : Gauge(k, l)
        \/ Finish

---------------------------------------------------------------------------
(* Laws, checked for all operands: with two of them initially, with one in every state. *)
Duals == {Dual(x) : x \in Operands}
InverseIsInverse ==
  Invertible(reg) /\ Tame(reg) => DMul(reg, DInv(reg)) = DOne /\ DMul(DInv(reg), reg) = DOne
ConjReverses ==
  Tame(reg) => \A b \in Duals : DConj(DMul(reg, b)) = DMul(DConj(b), DConj(reg))
Associative ==
  step = 0 => \A b, c \in Duals : DMul(DMul(reg, b), c) = DMul(reg, DMul(b, c))
Distributive ==
  step = 0 => \A b, c \in Duals : DMul(reg, DAdd(b, c)) = DAdd(DMul(reg, b), DMul(reg, c))
(* A dual quaternion times its conjugate is the dual number N + eps 2 D, its squared norm. *)
SquaredNorm ==
  Tame(reg) => LET p == DMul(reg, DConj(reg))
               IN  /\ p.r = QRat(<<0, 0, 0, NormR(reg)[1]>>, NormR(reg)[2])
                   /\ p.e = QRat(<<0, 0, 0, 2 * NormE(reg)[1]>>, NormE(reg)[2])
(* Products of normalized ones are normalized. *)
UnitsCompose ==
  Tame(reg) /\ IsUnit(reg) => \A b \in Duals : IsUnit(b) => IsUnit(DMul(reg, b))
=============================================================================
