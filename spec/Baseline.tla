------------------------------ MODULE Baseline ------------------------------
(***************************************************************************)
(* The baseline: scans reference pairs in order for a set of agreeing pairs *)
(* that is large enough (first hit) or largest (exhaustive).                *)
(* Agreement is a relation on the pairs of a recording; Cases are           *)
(* [agree, min, exhaustive] with agree a sequence of sets.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cases, MaxN, Mins, ClusterN

VARIABLES case, agree, min, exhaustive, j, best, status
vars == <<case, agree, min, exhaustive, j, best, status>>

N == Len(agree)
Size(i) == Cardinality(agree[i])

(* All reflexive and symmetric relations on few pairs. *)
Relations(n) == {r \in [1..n -> SUBSET (1..n)] : \A a \in 1..n : a \in r[a] /\ \A b \in r[a] : a \in r[b]}

Start == j = 0 /\ best = 0 /\ status = "running"
Init == /\ case = 0
        /\ \E n \in 1..MaxN : agree \in {[i \in 1..n |-> r[i]] : r \in Relations(n)}
        /\ min \in Mins
        /\ exhaustive \in BOOLEAN
        /\ Start
CInit == /\ case \in 1..Len(Cases)
         /\ agree = Cases[case].agree
         /\ min = Cases[case].min
         /\ exhaustive = Cases[case].exhaustive
         /\ Start

(* Cluster numbers in order of first appearance. *)
RECURSIVE Growths(_)
Growths(n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{Append(g, c) : c \in 1..(Cardinality({g[i] : i \in 1..(n - 1)}) + 1)} : g \in Growths(n - 1)}
GInit == /\ case = 0
         /\ \E n \in ClusterN : \E g \in Growths(n) :
              agree = [a \in 1..n |-> {b \in 1..n : g[b] = g[a]}]
         /\ min \in Mins
         /\ exhaustive \in BOOLEAN
         /\ Start

Scan == /\ status = "running"
        /\ j < N
        /\ j' = j + 1
        /\ IF exhaustive
           THEN /\ best' = IF Size(j + 1) >= min /\ (best = 0 \/ Size(j + 1) > Size(best)) THEN j + 1 ELSE best
                /\ UNCHANGED status
           ELSE /\ best' = IF Size(j + 1) > min THEN j + 1 ELSE 0
                /\ status' = IF Size(j + 1) > min THEN "success" ELSE "running"
        /\ UNCHANGED <<case, agree, min, exhaustive>>
Finish == /\ status = "running"
          /\ j = N
          /\ status' = IF best = 0 THEN "failure" ELSE "success"
          /\ UNCHANGED <<case, agree, min, exhaustive, j, best>>
Sorted(S) == CHOOSE s \in {[i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]} : TRUE
Emit == /\ status \in {"success", "failure"}
        /\ PrintT(<<"@@", ToJson([case |-> case, agree |-> [i \in 1..N |-> Sorted(agree[i])], min |-> min, exhaustive |-> exhaustive,
                                  status |-> status, ref |-> best,
                                  inliers |-> IF best = 0 THEN <<>> ELSE Sorted(agree[best])])>>)
        /\ status' = "done"
        /\ UNCHANGED <<case, agree, min, exhaustive, j, best>>
Next == Scan \/ Finish
ENext == Next \/ Emit

Ended == status \in {"success", "failure"}
(* What the scan has to arrive at. *)
Enough(i) == IF exhaustive THEN Size(i) >= min ELSE Size(i) > min
Failure == Ended => (status = "failure" <=> \A i \in 1..N : ~Enough(i))
Largest == (status = "success" /\ exhaustive) =>
             /\ Enough(best)
             /\ \A i \in 1..N : Size(i) <= Size(best) /\ (Size(i) = Size(best) => best <= i)
First == (status = "success" /\ ~exhaustive) => Enough(best) /\ \A i \in 1..(best - 1) : ~Enough(i)
=============================================================================
