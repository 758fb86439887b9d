----------------------------- MODULE Alignment ------------------------------
(***************************************************************************)
(* Evaluation of a candidate transform on hand and eye trajectories: the    *)
(* hand trajectory predicted from the eye by the candidate, re-based at its *)
(* first pose, is compared with the hand trajectory.                        *)
(***************************************************************************)
EXTENDS HandEye

CONSTANTS Candidates, Worlds

Predicted(y) ==
  LET first == MMul(eye[1], MInv(y)) IN [i \in 1..Len(eye) |-> MMul(MInv(first), MMul(eye[i], MInv(y)))]

Judge(y, w) ==
  /\ ~reported
  /\ Len(hand) = MaxLen + 1
  /\ \E p \in {Predicted(y)} :
       /\ \A i \in 1..Len(p) : MSmall(p[i], Bound)
       /\ PrintT(<<"@@", ToJson([x |-> x, y |-> y, w |-> w, hand |-> hand, eye |-> [i \in 1..Len(eye) |-> MMul(w, eye[i])],
                                 predicted |-> p, exact |-> (y = x)])>>)
  /\ reported' = TRUE
  /\ UNCHANGED <<x, hand, eye>>

ANext == \/ \E a \in Motions : Move(a)
         \/ \E y \in Candidates \cup {x}, w \in Worlds : Judge(y, w)

(* The true transform predicts the hand trajectory itself, and so does any *)
(* other transform that explains the motions.                              *)
TrueIsExact == Predicted(x) = hand
ExplainsIsExact == \A y \in Candidates : Explains(y) <=> Predicted(y) = hand
=============================================================================
