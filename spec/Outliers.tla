------------------------------ MODULE Outliers ------------------------------
(***************************************************************************)
(* Recordings in which some pairs share one transform and the others agree  *)
(* with nothing. A recording is built pair by pair, then a search variant   *)
(* is chosen; what the variant may return is derived from the agreement of  *)
(* pairs alone.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MinN, MaxN, MinConsistent, Variants

VARIABLES pattern, variant
vars == <<pattern, variant>>

N == Len(pattern)
Consistent == {i \in 1..N : pattern[i]}
Agree(i, j) == i = j \/ (pattern[i] /\ pattern[j])
InliersOf(i) == {j \in 1..N : Agree(i, j)}

(* A drawn sample is re-based at its first pair. *)
Accepted(ref, sample) == /\ ref \in sample
                         /\ \A j \in sample : Agree(ref, j)
                         /\ Cardinality(InliersOf(ref)) >= variant.min
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
SampleSets(k) == {s \in SUBSET (1..N) : Cardinality(s) = k}
SearchResults ==
  {InliersOf(p[1]) : p \in {q \in (1..N) \X SampleSets(variant.size) :
                              /\ Accepted(q[1], q[2])
                              /\ variant.exhaustive => q[1] = Least(q[2])}}
Large(i) == Cardinality(InliersOf(i))
BaselineResults ==
  IF variant.exhaustive
  THEN LET top == {i \in 1..N : Large(i) >= variant.min /\ \A j \in 1..N : Large(j) <= Large(i)} IN
         IF top = {} THEN {} ELSE {InliersOf(Least(top))}
  ELSE LET big == {i \in 1..N : Large(i) > variant.min} IN
         IF big = {} THEN {} ELSE {InliersOf(Least(big))}
Results == IF variant.alg = "baseline" THEN BaselineResults ELSE SearchResults

None == [alg |-> "none"]
Init == pattern = <<>> /\ variant = None
Record(b) == /\ variant = None
             /\ N < MaxN
             /\ pattern' = Append(pattern, b)
             /\ UNCHANGED variant
Outcome == IF Results = {} THEN "never"
           ELSE IF variant.exhaustive \/ variant.alg = "baseline" THEN "must" ELSE "may"
Calibrate(v) == /\ variant = None
                /\ N >= MinN
                /\ Cardinality(Consistent) >= MinConsistent
                /\ v.alg = "baseline" \/ v.size < N
                /\ variant' = v
                /\ UNCHANGED pattern
Emit == /\ variant # None
        /\ variant.alg # "done"
        /\ PrintT(<<"@@", ToJson([pattern |-> pattern, variant |-> variant, outcome |-> Outcome,
                                  inliers |-> Cardinality(Consistent)])>>)
        /\ variant' = [alg |-> "done"]
        /\ UNCHANGED pattern
Next == \/ \E b \in BOOLEAN : Record(b)
        \/ \E v \in Variants : Calibrate(v)
        \/ Emit

Chosen == variant.alg \in {"search", "baseline"}
(* The property, as a statement about every variant. *)
OnlyConsistent == Chosen => Results \subseteq {Consistent}
AlwaysFound == (Chosen /\ variant.exhaustive /\ Cardinality(Consistent) >= variant.min
                /\ (variant.alg = "search" => Cardinality(Consistent) >= variant.size)) => Results = {Consistent}
=============================================================================
