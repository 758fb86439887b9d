------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The calibration pipeline over files.  Two recordings a and b are aligned *)
(* (writing A, B and the time offset O, in this order), calibrated (pose    *)
(* P), combined to an initial guess (G) and refined (C).  A run executes    *)
(* the stages in order.  Driver "make" executes a stage only if its outputs *)
(* are out of date, driver "always" executes all.  A stage can fail or      *)
(* crash after any number of its writes, which ends the run.  Between runs  *)
(* recordings change and files are deleted.                                 *)
(*                                                                          *)
(* The content of a file is the tree of contents it was derived from.       *)
(* Rule "ideal": outputs are out of date if one of them is missing or older *)
(* than an input.  Rule "found": only if all are missing, or one that       *)
(* exists is older than an input (what close_the_circle_test.py does).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Driver, Rule, MaxOps, Crashes, Deletable, Fresh0, Deep

Stages == <<"align", "calibrate", "guess", "estimate">>
Inputs == {"a", "b"}
Results == {"A", "B", "O", "P", "G", "C"}
Ins == [align |-> {"a", "b"}, calibrate |-> {"A", "B"}, guess |-> {"O", "P"}, estimate |-> {"a", "b", "G"}]
Outs == [align |-> <<"A", "B", "O">>, calibrate |-> <<"P">>, guess |-> <<"G">>, estimate |-> <<"C">>]

VARIABLES fs, clock, stage, todo, crash, ran, status, ops, hist, told
vars == <<fs, clock, stage, todo, crash, ran, status, ops, hist, told>>

Range(s) == {s[i] : i \in 1..Len(s)}
None == [c |-> <<>>, t |-> 0]
There(f) == fs[f].t > 0
NoCrash == [stage |-> "none", after |-> 0]

(* What a file derived now from the present files contains.                 *)
Derived(F, s) == CASE s = "align" -> <<F["a"].c, F["b"].c>>
                   [] s = "calibrate" -> <<F["A"].c, F["B"].c>>
                   [] s = "guess" -> <<F["O"].c, F["P"].c>>
                   [] s = "estimate" -> <<F["a"].c, F["b"].c, F["G"].c>>
Of(F) == LET al == <<F["a"].c, F["b"].c>>
             p == <<al, al>>
             g == <<al, p>>
         IN [A |-> al, B |-> al, O |-> al, P |-> p, G |-> g, C |-> <<F["a"].c, F["b"].c, g>>]

In0 == [f \in Inputs \cup Results |-> IF f = "a" THEN [c |-> <<1>>, t |-> 1] ELSE IF f = "b" THEN [c |-> <<2>>, t |-> 2] ELSE None]
Done0 == [f \in Inputs \cup Results |-> IF f \in Inputs THEN In0[f]
            ELSE [c |-> Of(In0)[f], t |-> CASE f = "A" -> 3 [] f = "B" -> 4 [] f = "O" -> 5 [] f = "P" -> 6 [] f = "G" -> 7 [] f = "C" -> 8]]

Init == /\ fs = IF Fresh0 THEN Done0 ELSE In0
        /\ clock = 8
        /\ stage = 0 /\ todo = <<>> /\ crash = NoCrash /\ ran = <<>>
        /\ status = "none" /\ ops = 0 /\ hist = <<>> /\ told = FALSE

Idle == stage = 0

(* ---- between runs ---- *)
Change(i) == /\ Idle /\ ops < MaxOps
             /\ clock' = clock + 1
             /\ fs' = [fs EXCEPT ![i] = [c |-> <<clock + 1>>, t |-> clock + 1]]
             /\ ops' = ops + 1
             /\ hist' = Append(hist, [op |-> "change", f |-> i, version |-> clock + 1])
             /\ UNCHANGED <<stage, todo, crash, ran, status, told>>
Delete(f) == /\ Idle /\ ops < MaxOps /\ There(f)
             /\ fs' = [fs EXCEPT ![f] = None]
             /\ ops' = ops + 1
             /\ hist' = Append(hist, [op |-> "delete", f |-> f])
             /\ UNCHANGED <<clock, stage, todo, crash, ran, status, told>>

(* ---- a run ---- *)
Start(c) == /\ Idle
            /\ IF c = NoCrash THEN ops <= MaxOps ELSE ops < MaxOps
            /\ ~told
            /\ ops' = ops + 1
            /\ stage' = 1 /\ todo' = <<>> /\ crash' = c /\ ran' = <<>> /\ status' = "running"
            /\ hist' = Append(hist, [op |-> "run", stage |-> c.stage, after |-> c.after])
            /\ UNCHANGED <<fs, clock, told>>
Name == Stages[stage]
OutSet == Range(Outs[Name])
Present(S) == {f \in S : There(f)}
Newer == \E i \in Present(Ins[Name]), o \in Present(OutSet) : fs[i].t > fs[o].t
Needs == \/ Driver = "always"
         \/ Newer
         \/ IF Rule = "ideal" THEN Present(OutSet) /= OutSet ELSE Present(OutSet) = {}
Running == stage \in 1..Len(Stages)
Entered == ran /= <<>> /\ ran[Len(ran)] = Name
End(st) == /\ stage' = 0 /\ todo' = <<>> /\ status' = st
           /\ hist' = Append(hist, [op |-> "end", status |-> st, ran |-> ran,
                                    files |-> [f \in Results |-> fs[f].c]])
           /\ UNCHANGED <<fs, clock, crash, ran, ops, told>>
Skip == /\ Running /\ ~Entered /\ ~Needs
        /\ stage' = stage + 1
        /\ UNCHANGED <<fs, clock, todo, crash, ran, status, ops, hist, told>>
Enter == /\ Running /\ ~Entered /\ Needs
         /\ ran' = Append(ran, Name)
         /\ todo' = Outs[Name]
         /\ UNCHANGED <<fs, clock, stage, crash, status, ops, hist, told>>
Written == Len(Outs[Name]) - Len(todo)
Dies == Entered /\ crash.stage = Name /\ crash.after = Written
Missing == Present(Ins[Name]) /= Ins[Name]
Write == /\ Running /\ Entered /\ ~Missing /\ ~Dies /\ todo /= <<>>
         /\ clock' = clock + 1
         /\ fs' = [fs EXCEPT ![Head(todo)] = [c |-> Derived(fs, Name), t |-> clock + 1]]
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<stage, crash, ran, status, ops, hist, told>>
Leave == /\ Running /\ Entered /\ ~Missing /\ ~Dies /\ todo = <<>>
         /\ stage' = stage + 1
         /\ UNCHANGED <<fs, clock, todo, crash, ran, status, ops, hist, told>>
Fail == Running /\ Entered /\ (Missing \/ Dies) /\ End("failed")
Complete == stage = Len(Stages) + 1 /\ End("completed")

Finish == /\ Idle /\ ops = MaxOps + 1 /\ ~told
          /\ told' = TRUE
          /\ (~Deep => PrintT(<<"@@", ToJson([hist |-> hist, fresh |-> Fresh0])>>))
          /\ UNCHANGED <<fs, clock, stage, todo, crash, ran, status, ops, hist>>

Next == \/ \E i \in Inputs : Change(i)
        \/ \E f \in Deletable : Delete(f)
        \/ \E c \in Crashes \cup {NoCrash} : Start(c)
        \/ Skip \/ Enter \/ Write \/ Leave \/ Fail \/ Complete \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Skip \/ Enter \/ Write \/ Leave \/ Fail \/ Complete)

(* ---- what has to hold ---- *)
LastOp == hist[Len(hist)].op
JustEnded == Idle /\ hist /= <<>> /\ LastOp = "end"
UpToDate == \A f \in Results : There(f) /\ fs[f].c = Of(fs)[f]
\* A completed run leaves all results derived from the present recordings.
Fresh == JustEnded /\ status = "completed" => UpToDate
\* If nothing changed since a completed run, no stage is executed.
NothingToDo == JustEnded /\ Len(hist) >= 4 /\ hist[Len(hist) - 1].op = "run" /\ hist[Len(hist) - 2].op = "end"
                 /\ hist[Len(hist) - 2].status = "completed" => ran = <<>>
\* Without a fault a run completes.
Recovers == JustEnded /\ crash = NoCrash /\ (\A i \in Inputs : There(i)) => status = "completed"
\* A failed stage is the last one executed.
StopsAtFailure == JustEnded /\ status = "failed" /\ crash.stage \in Range(ran) => ran[Len(ran)] = crash.stage
Reruns == [](Running => <>Idle)
\* Histories are told apart only by what the files are now.
View == <<fs, stage, todo, crash, ran, status, IF hist = <<>> THEN hist ELSE SubSeq(hist, IF Len(hist) > 3 THEN Len(hist) - 3 ELSE 1, Len(hist))>>
=============================================================================
