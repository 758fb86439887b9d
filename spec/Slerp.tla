------------------------------- MODULE Slerp --------------------------------
(***************************************************************************)
(* Rotation at constant rate.  An orientation starts at q0 and turns by    *)
(* the same rotation r in each of n steps, in the fixed frame (left) or in *)
(* its own frame (right).  As long as the total turn is below a half turn  *)
(* this is the shortest arc from q0 to the final orientation, hence what   *)
(* spherical interpolation has to pass through at fraction k / n.          *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, FiniteSets

CONSTANTS Starts, Rates, MaxSteps, Bound

VARIABLES q0, r, n, k, q, side
vars == <<q0, r, n, k, q, side>>

(* The half angle of the total turn is below 90 degrees. *)
RECURSIVE Forward(_, _, _)
Forward(p, acc, j) ==
  IF j = 0 THEN TRUE
  ELSE \E a \in {QMul(acc, p)} :
         /\ Re(a) > 0
         /\ (\A i \in 1..4 : Abs(a[i]) <= Bound)
         /\ Forward(p, a, j - 1)

Init == /\ q0 \in Starts
        /\ r \in Rates
        /\ n \in 1..MaxSteps
        /\ side \in {"left", "right"}
        /\ Forward(r, QOne, n) = TRUE
        /\ k = 0
        /\ q = q0

Turn == /\ k < n
        /\ k' = k + 1
        /\ q' = IF side = "left" THEN QMul(r, q) ELSE QMul(q, r)
        /\ UNCHANGED <<q0, r, n, side>>

(* At the end of the arc: report it with all intermediate orientations. *)
At(j) == IF side = "left" THEN QMul(QPow(r, j), q0) ELSE QMul(q0, QPow(r, j))
Report == /\ k = n
          /\ k' = n + 1
          /\ PrintT(<<"@@", ToJson([q0 |-> q0, r |-> r, n |-> n, side |-> side,
                                    arc |-> [j \in 1..(n + 1) |-> At(j - 1)]])>>)
          /\ UNCHANGED <<q0, r, n, q, side>>
Next == Turn \/ Report

---------------------------------------------------------------------------
(* All steps turn alike: the relative rotation of consecutive orientations *)
(* is the same, and the relative rotation to the start grows with k.       *)
OnArc == k <= n => q = At(k)
(* cos of the half angle to the start, q . q0 / (|q| |q0|), stays positive *)
(* (shortest arc) and its square decreases (constant direction).           *)
Shortest == k <= n => QDot(q, q0) > 0
=============================================================================
