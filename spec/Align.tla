-------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* Selection of common instants of two time stamped streams.  Stamps are    *)
(* integers (ticks of 1/64 s), so a distance is below 0.1 s if it is at     *)
(* most Near = 6 ticks.  The machine walks along the stream with the larger *)
(* median interval as the implementation does; Selected says what has to    *)
(* come out.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Gaps, MaxLen, Offsets, Near, Cases

VARIABLES a, b, offset, phase, pos, out, case, first
vars == <<a, b, offset, phase, pos, out, case, first>>

Last(s) == s[Len(s)]
Max(x, y) == IF x >= y THEN x ELSE y
Min(x, y) == IF x <= y THEN x ELSE y
Range(s) == {s[i] : i \in 1..Len(s)}

(* Twice the median of the intervals. *)
Intervals(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]]
Less(d, i) == Cardinality({k \in 1..Len(d) : d[k] < d[i]})
AtMost(d, i) == Cardinality({k \in 1..Len(d) : d[k] <= d[i]})
Order(d, k) == d[CHOOSE i \in 1..Len(d) : Less(d, i) < k /\ k <= AtMost(d, i)]
Median2(s) == LET d == Intervals(s) n == Len(d) IN
                IF n % 2 = 1 THEN 2 * Order(d, (n + 1) \div 2) ELSE Order(d, n \div 2) + Order(d, n \div 2 + 1)

Shifted == [i \in 1..Len(a) |-> a[i] + offset]
FirstIsLow == first     \* decided once the streams are known
Low == IF FirstIsLow THEN Shifted ELSE b
High == IF FirstIsLow THEN b ELSE Shifted
Begin == Max(Low[1], High[1])

(* ---- building the streams ---- *)
Init == a = <<0>> /\ b = <<0>> /\ offset = 0 /\ phase = "A" /\ pos = 1 /\ out = <<>> /\ case = 0 /\ first = TRUE
StampA(g) == phase = "A" /\ Len(a) < MaxLen /\ a' = Append(a, Last(a) + g) /\ UNCHANGED <<b, offset, phase, pos, out, case, first>>
EndA == phase = "A" /\ Len(a) >= 2 /\ phase' = "B" /\ UNCHANGED <<a, b, offset, pos, out, case, first>>
StampB(g) == phase = "B" /\ Len(b) < MaxLen /\ b' = Append(b, Last(b) + g) /\ UNCHANGED <<a, offset, phase, pos, out, case, first>>
EndB(o) == /\ phase = "B" /\ Len(b) >= 2
           /\ offset' = o /\ phase' = "walk"
           /\ first' = (Median2(a) >= Median2(b))
           /\ UNCHANGED <<a, b, pos, out, case>>

(* ---- walking ---- *)
Stamp == Low[pos]
(* Index of the first stamp of the other stream that is not smaller.        *)
Right == LET s == {i \in 1..Len(High) : High[i] >= Stamp} IN
           IF s = {} THEN Len(High) + 1 ELSE CHOOSE i \in s : \A k \in s : i <= k
Walk == /\ phase = "walk"
        /\ pos <= Len(Low)
        /\ IF Stamp < Begin THEN pos' = pos + 1 /\ UNCHANGED <<out, phase>>
           ELSE IF Right >= Len(High) THEN phase' = "walked" /\ UNCHANGED <<out, pos>>
           ELSE /\ pos' = pos + 1
                /\ out' = IF \/ High[Right] = Stamp
                             \/ Right > 1 /\ Stamp - High[Right - 1] <= Near /\ High[Right] - Stamp <= Near
                          THEN Append(out, Stamp) ELSE out
                /\ UNCHANGED phase
        /\ UNCHANGED <<a, b, offset, case, first>>
EndWalk == phase = "walk" /\ pos > Len(Low) /\ phase' = "walked" /\ UNCHANGED <<a, b, offset, pos, out, case, first>>
Report == /\ phase = "walked"
          /\ phase' = "done"
          /\ PrintT(<<"@@", ToJson([case |-> case, a |-> a, b |-> b, offset |-> offset, low |-> IF FirstIsLow THEN "a" ELSE "b", out |-> out])>>)
          /\ UNCHANGED <<a, b, offset, pos, out, case, first>>
Next == \/ \E g \in Gaps : StampA(g) \/ StampB(g)
        \/ EndA \/ \E o \in Offsets : EndB(o)
        \/ Walk \/ EndWalk \/ Report

(* Recorded streams. *)
CInit == /\ case \in 1..Len(Cases)
         /\ a = Cases[case].a /\ b = Cases[case].b /\ offset = Cases[case].offset
         /\ phase = "walk" /\ pos = 1 /\ out = <<>>
         /\ first = (Median2(a) >= Median2(b))

(* ---- the property ---- *)
Finished == phase = "walked"
Coincides(t) == t \in Range(High)
Neighbours(t) == /\ \E i \in 1..(Len(High) - 1) : /\ High[i] < t /\ t < High[i + 1]
                                                  /\ t - High[i] <= Near /\ High[i + 1] - t <= Near
Selected == {t \in Range(Low) : /\ t >= Begin
                                /\ t <= High[Len(High) - 1]
                                /\ Coincides(t) \/ Neighbours(t)}
RightOnes == Finished => Range(out) = Selected
Increasing == \A i \in 1..(Len(out) - 1) : out[i] < out[i + 1]
Common == \A t \in Range(out) : t >= Max(a[1] + offset, b[1]) /\ t <= Min(Last(a) + offset, Last(b))
=============================================================================
