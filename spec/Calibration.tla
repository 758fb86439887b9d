----------------------------- MODULE Calibration ----------------------------
(***************************************************************************)
(* Extrinsic calibrations: a time offset (in ticks) and a rigid motion.     *)
(* Two calibrations x and y in memory, one file.  Files hold the numbers    *)
(* of the offset, translation and rotation; switching the convention        *)
(* conjugates the rotation on its way into or out of the file.              *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS Pairs, MaxOps, Limit

VARIABLES x, y, file, hist
vars == <<x, y, file, hist>>

NoFile == [d |-> 0, m |-> MId, there |-> FALSE]
Init == /\ \E p \in Pairs : x = p[1] /\ y = p[2]
        /\ file = NoFile
        /\ hist = <<[op |-> "begin", x |-> x, y |-> y, file |-> file]>>

Switched(m, s) == IF s THEN [m EXCEPT !.q = QCanon(QConj(m.q))] ELSE m
Log(o, s) == hist' = Append(hist, [op |-> o, switch |-> s, x |-> x', y |-> y', file |-> file'])
Going == Len(hist) <= MaxOps
Small(c) == MSmall(c.m, Limit)

Store(c, s) == /\ Going
               /\ file' = [d |-> c.d, m |-> Switched(c.m, s), there |-> TRUE]
               /\ UNCHANGED <<x, y>>
StoreX(s) == Store(x, s) /\ Log("storeX", s)
StoreY(s) == Store(y, s) /\ Log("storeY", s)
Loaded(s) == [d |-> file.d, m |-> Switched(file.m, s)]
LoadX(s) == Going /\ file.there /\ x' = Loaded(s) /\ UNCHANGED <<y, file>> /\ Log("loadX", s)
LoadY(s) == Going /\ file.there /\ y' = Loaded(s) /\ UNCHANGED <<x, file>> /\ Log("loadY", s)
Compose(a, b) == [d |-> a.d + b.d, m |-> MMul(a.m, b.m)]
(* x := x y, y := x y *)
MulX == Going /\ x' = Compose(x, y) /\ Small(x') /\ UNCHANGED <<y, file>> /\ Log("mulX", FALSE)
MulY == Going /\ y' = Compose(x, y) /\ Small(y') /\ UNCHANGED <<x, file>> /\ Log("mulY", FALSE)
(* x := x x, one operand twice *)
Square == Going /\ x' = Compose(x, x) /\ Small(x') /\ UNCHANGED <<y, file>> /\ Log("square", FALSE)
Show == Going /\ UNCHANGED <<x, y, file>> /\ Log("show", FALSE)
Finish == /\ Len(hist) = MaxOps + 1
          /\ PrintT(<<"@@", ToJson(hist)>>)
          /\ hist' = Append(hist, [op |-> "end"])
          /\ UNCHANGED <<x, y, file>>
Next == \/ \E s \in BOOLEAN : StoreX(s) \/ StoreY(s) \/ LoadX(s) \/ LoadY(s)
        \/ MulX \/ MulY \/ Square \/ Show \/ Finish

(* ---- laws ---- *)
Through(c, s1, s2) == [d |-> c.d, m |-> Switched(Switched(c.m, s1), s2)]
RoundTrip == Through(x, FALSE, FALSE) = x /\ Through(x, TRUE, TRUE) = x
OneSided == LET c == Through(x, TRUE, FALSE) IN
              /\ c.d = x.d /\ c.m.t = x.m.t /\ c.m.d = x.m.d
              /\ QCanon(QMul(c.m.q, x.m.q)) = QOne
(* With exact fractions composition has an inverse and a unit. *)
Group == MSmall(x.m, 12) => LET u == [d |-> 0, m |-> MId] IN
           /\ Compose(x, u) = x /\ Compose(u, x) = x
           /\ Compose(x, [d |-> -x.d, m |-> MInv(x.m)]) = u
=============================================================================
