----------------------------- MODULE Prefilter ------------------------------
(***************************************************************************)
(* Selection of distinct pose pairs.  Poses arrive in order as a pair of    *)
(* screw axes <<hand, eye>>, integer vectors of any length, zero if the     *)
(* pose does not move.  A pair is kept if it moves in both trajectories and *)
(* is not too parallel, in either, to a pair kept before.                   *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, FiniteSets

CONSTANTS Items,       \* pairs of axes
          Thresholds,  \* <<numerator, denominator>> of dot products
          MaxLen

VARIABLES thr, seen, kept, tie, done
vars == <<thr, seen, kept, tie, done>>

(* Compares cos(u, v) with the threshold: 1 above, 0 equal, -1 below. *)
Compare(u, v) ==
  LET d == VDot(u, v)
      l == d * d * thr[2] * thr[2]
      r == thr[1] * thr[1] * VDot(u, u) * VDot(v, v)
  IN  CASE d < 0 -> -1
        [] d >= 0 /\ l > r -> 1
        [] d >= 0 /\ l = r -> 0
        [] OTHER -> -1

Moves(p) == p[1] # VZero /\ p[2] # VZero
Parallel(p, k) == Compare(p[1], k[1]) = 1 \/ Compare(p[2], k[2]) = 1
Coordinate(v) == Cardinality({i \in 1..3 : v[i] # 0}) = 1
Close(u, v) == Compare(u, v) = 0 /\ ~(Coordinate(u) /\ Coordinate(v) /\ thr[1] = 0)
Keeps(p) == Moves(p) /\ \A i \in 1..Len(kept) : ~Parallel(p, seen[kept[i]])

Init == /\ thr \in Thresholds
        /\ seen = <<>>
        /\ kept = <<>>
        /\ tie = FALSE
        /\ done = FALSE

Pose(p) ==
  /\ ~done
  /\ Len(seen) < MaxLen
  /\ seen' = Append(seen, p)
  /\ kept' = IF Keeps(p) THEN Append(kept, Len(seen) + 1) ELSE kept
     \* equal to the threshold up to rounding: not decided
  /\ tie' = (tie \/ (Moves(p) /\ \E i \in 1..Len(kept) : Close(p[1], seen[kept[i]][1]) \/ Close(p[2], seen[kept[i]][2])))
  /\ UNCHANGED <<thr, done>>
Finish ==
  /\ ~done
  /\ Len(seen) > 0
  /\ done' = TRUE
  /\ PrintT(<<"@@", ToJson([thr |-> thr, seen |-> seen, kept |-> kept, tie |-> tie])>>)
  /\ UNCHANGED <<thr, seen, kept, tie>>

Next == (\E p \in Items : Pose(p)) \/ Finish

---------------------------------------------------------------------------
Subsequence == \A i \in 1..Len(kept) : kept[i] \in 1..Len(seen) /\ (i > 1 => kept[i] > kept[i - 1])
(* Kept pairs are distinct ... *)
Distinct == \A i, j \in 1..Len(kept) : i < j => ~Parallel(seen[kept[j]], seen[kept[i]]) /\ Moves(seen[kept[i]])
(* ... and nothing that could have been kept is missing: every dropped pair *)
(* does not move or is parallel to an earlier kept pair.                    *)
Maximal == \A n \in 1..Len(seen) :
             (\A i \in 1..Len(kept) : kept[i] # n) =>
               ~Moves(seen[n]) \/ \E i \in 1..Len(kept) : kept[i] < n /\ Parallel(seen[n], seen[kept[i]])
=============================================================================
