------------------------------ MODULE Aggregate -----------------------------
(***************************************************************************)
(* Collection of result tables.  A table is a sequence of rows; a row has a *)
(* data set, an algorithm, an outcome, whether its run has a loop error and *)
(* whether its initial guess was perturbed.  The outcome is good, or the    *)
(* calibration failed, is badly conditioned, or its optimization failed     *)
(* ("lost").  A run has a loop error only if none of its pose pairs failed, *)
(* so a good row may come without one.  Rows are numbered in reading order  *)
(* over all tables; the number stands for the measurements of the row.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Datasets, Algorithms, MaxRows, MaxTables

VARIABLES tables,     \* rows of each table, as written
          n,          \* rows read so far
          sets,       \* data sets in order of first appearance
          methods,    \* algorithms in order of first appearance
          perSet,     \* <<data set, algorithm>> -> row numbers
          perMethod,  \* algorithm -> row numbers
          kept,       \* row numbers that count
          looped,     \* row numbers whose loop error counts
          done
vars == <<tables, n, sets, methods, perSet, perMethod, kept, looped, done>>

Row == {row \in [ds : Datasets, m : Algorithms, outcome : {"good", "failed", "bad", "lost"}, loop : BOOLEAN, spoiled : BOOLEAN] :
          row.loop => row.outcome \in {"good", "bad"}}
Range(s) == {s[i] : i \in 1..Len(s)}
Appear(s, x) == IF x \in Range(s) THEN s ELSE Append(s, x)

Init == /\ tables = << <<>> >> /\ n = 0
        /\ sets = <<>> /\ methods = <<>>
        /\ perSet = [k \in Datasets \X Algorithms |-> <<>>]
        /\ perMethod = [m \in Algorithms |-> <<>>]
        /\ kept = <<>> /\ looped = <<>> /\ done = FALSE

Read(row) ==
  /\ ~done /\ n < MaxRows
  /\ n' = n + 1
  /\ tables' = [tables EXCEPT ![Len(tables)] = Append(@, row)]
  /\ IF row.outcome = "good"
     THEN /\ sets' = Appear(sets, row.ds)
          /\ methods' = Appear(methods, row.m)
          /\ perSet' = [perSet EXCEPT ![<<row.ds, row.m>>] = Append(@, n + 1)]
          /\ perMethod' = [perMethod EXCEPT ![row.m] = Append(@, n + 1)]
          /\ kept' = Append(kept, n + 1)
          /\ looped' = IF row.loop THEN Append(looped, n + 1) ELSE looped
     ELSE UNCHANGED <<sets, methods, perSet, perMethod, kept, looped>>
  /\ UNCHANGED done

NextTable == /\ ~done /\ Len(tables) < MaxTables
             /\ tables' = Append(tables, <<>>)
             /\ UNCHANGED <<n, sets, methods, perSet, perMethod, kept, looped, done>>

Collect == /\ ~done /\ done' = TRUE
           /\ PrintT(<<"@@", ToJson([tables |-> tables, sets |-> sets, methods |-> methods, kept |-> kept, looped |-> looped,
                  perMethod |-> [i \in 1..Len(methods) |-> perMethod[methods[i]]],
                  perSet |-> [i \in 1..Len(sets) |-> [j \in 1..Len(methods) |-> perSet[<<sets[i], methods[j]>>]]]])>>)
           /\ UNCHANGED <<tables, n, sets, methods, perSet, perMethod, kept, looped>>

Next == NextTable \/ Collect \/ \E row \in Row : Read(row)

(* ---- what has to hold ---- *)
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Flat(Tail(ts))
Good(i) == Flat(tables)[i].outcome = "good"
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
OnlyGood == /\ Range(kept) = {i \in 1..n : Good(i)} /\ Increasing(kept)
            /\ Range(looped) = {i \in 1..n : Good(i) /\ Flat(tables)[i].loop} /\ Increasing(looped)
Sum(f, S) == LET RECURSIVE Go(_)
                 Go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN Len(f[x]) + Go(T \ {x})
             IN Go(S)
Partition == /\ Sum(perSet, Datasets \X Algorithms) = Len(kept)
             /\ Sum(perMethod, Algorithms) = Len(kept)
             /\ \A k \in Datasets \X Algorithms : Increasing(perSet[k]) /\
                  \A i \in Range(perSet[k]) : Flat(tables)[i].ds = k[1] /\ Flat(tables)[i].m = k[2] /\ Good(i)
             /\ \A m \in Algorithms : Increasing(perMethod[m]) /\
                  \A i \in Range(perMethod[m]) : Flat(tables)[i].m = m /\ Good(i)
First(P(_)) == CHOOSE i \in 1..n : P(i) /\ \A j \in 1..n : P(j) => i <= j
FirstAppearance ==
  /\ Cardinality(Range(sets)) = Len(sets) /\ Cardinality(Range(methods)) = Len(methods)
  /\ Range(sets) = {Flat(tables)[i].ds : i \in Range(kept)}
  /\ Range(methods) = {Flat(tables)[i].m : i \in Range(kept)}
  /\ LET Pos(d) == LET P(i) == i \in Range(kept) /\ Flat(tables)[i].ds = d IN First(P)
     IN Increasing([i \in 1..Len(sets) |-> Pos(sets[i])])
  /\ LET Pos(m) == LET P(i) == i \in Range(kept) /\ Flat(tables)[i].m = m IN First(P)
     IN Increasing([i \in 1..Len(methods) |-> Pos(methods[i])])
=============================================================================
