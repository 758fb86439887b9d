-------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Export of all poses listed in a configuration.  A configuration is a     *)
(* list of bags; a bag has a section of frames (as many targets as sources) *)
(* and a section of cameras (as many intrinsics as topics).  A section can  *)
(* be left out.  Commands are issued one by one; a command may fail, which  *)
(* changes nothing for the others.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Configurations, Failing

VARIABLES cfg, bag, section, item, issued, status, fails
vars == <<cfg, bag, section, item, issued, status, fails>>

None == [k |-> -1, l |-> -1]        \* section left out
Present(s) == s.k >= 0
Balanced(s) == s.k = s.l
Count(s) == IF Present(s) THEN s.k ELSE 0

Init == /\ cfg \in Configurations
        /\ bag = 1 /\ section = "frames" /\ item = 0
        /\ issued = <<>> /\ status = "running"
        /\ fails \in Failing              \* which commands fail, by position

Here == IF section = "frames" THEN cfg[bag].frames ELSE cfg[bag].cameras
Running == status = "running" /\ bag <= Len(cfg)

Refuse == /\ Running /\ ~Balanced(Here)
          /\ status' = "refused"
          /\ UNCHANGED <<cfg, bag, section, item, issued, fails>>
Issue == /\ Running /\ Balanced(Here) /\ item < Count(Here)
         /\ item' = item + 1
         /\ issued' = Append(issued, [bag |-> bag, section |-> section, item |-> item + 1])
         /\ UNCHANGED <<cfg, bag, section, status, fails>>
Cameras == /\ Running /\ section = "frames" /\ Balanced(Here) /\ item = Count(Here)
           /\ section' = "cameras" /\ item' = 0
           /\ UNCHANGED <<cfg, bag, issued, status, fails>>
NextBag == /\ Running /\ section = "cameras" /\ Balanced(Here) /\ item = Count(Here)
           /\ bag' = bag + 1 /\ section' = "frames" /\ item' = 0
           /\ UNCHANGED <<cfg, issued, status, fails>>
Report(s) == PrintT(<<"@@", ToJson([cfg |-> cfg, issued |-> issued, status |-> s, fails |-> fails])>>)
End == \/ /\ status = "running" /\ bag = Len(cfg) + 1
          /\ status' = "done" /\ Report("done")
          /\ UNCHANGED <<cfg, bag, section, item, issued, fails>>
       \/ /\ status = "refused"
          /\ status' = "stopped" /\ Report("refused")
          /\ UNCHANGED <<cfg, bag, section, item, issued, fails>>
Next == Refuse \/ Issue \/ Cameras \/ NextBag \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what has to hold ---- *)
Balance(c) == Balanced(c.frames) /\ Balanced(c.cameras)
Expected == {[bag |-> b, section |-> s, item |-> i] : b \in 1..Len(cfg), s \in {"frames", "cameras"}, i \in 1..40}
All == {e \in Expected : e.item <= Count(IF e.section = "frames" THEN cfg[e.bag].frames ELSE cfg[e.bag].cameras)}
Set(s) == {s[i] : i \in 1..Len(s)}
Once == Cardinality(Set(issued)) = Len(issued)
Complete == status = "done" => Set(issued) = All /\ \A b \in 1..Len(cfg) : Balance(cfg[b])
Refused == status \in {"refused", "stopped"} => \E b \in 1..Len(cfg) : ~Balance(cfg[b])
Before(x, y) == \/ x.bag < y.bag
                \/ x.bag = y.bag /\ x.section = "frames" /\ y.section = "cameras"
                \/ x.bag = y.bag /\ x.section = y.section /\ x.item < y.item
InOrder == \A i, j \in 1..Len(issued) : i < j => Before(issued[i], issued[j])
Ends == <>(status \in {"done", "stopped"})
=============================================================================
