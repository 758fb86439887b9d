----------------------------- MODULE CommandLine ----------------------------
(***************************************************************************)
(* The two command line tools.  Files are symbolic: what they contain, not  *)
(* numbers.  "hand" and "eye" are the recorded poses, in one of two         *)
(* quaternion conventions.  Aligning them gives files with the poses of     *)
(* hand and eye at common times and the time offset; the user may invert    *)
(* poses.  A file can be damaged.  Calibrating reads what its arguments     *)
(* name and writes what they ask for.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Conventions, Damages, Requests, MaxRuns

Inputs == {"B_H", "H_B", "W_E", "E_W"}
Outputs == {"extrinsics", "json"}

VARIABLES raw,      \* convention of the recorded poses
          files,    \* aligned poses, direct and inverted, and "offset" -> content
          out,      \* outputs -> content
          runs, hist
vars == <<raw, files, out, runs, hist>>

Absent == [of |-> "none", state |-> "absent"]
File(of, s) == [of |-> of, state |-> s]

Init == /\ raw \in Conventions
        /\ files = [f \in Inputs \cup {"offset"} |-> Absent]
        /\ out \in [Outputs -> {"none", "old"}]
        /\ runs = 0
        /\ hist = <<>>

(* Aligning understands the convention it is told.                          *)
Align(told) ==
  /\ runs = 0 /\ hist = <<>>
  /\ told \in {raw, "unknown"}
  /\ IF told = raw
     THEN files' = [files EXCEPT !["B_H"] = File("hand", "good"), !["W_E"] = File("eye", "good"), !["offset"] = File("offset", "good")]
     ELSE files' = files
  /\ hist' = Append(hist, [op |-> "align", told |-> told, ok |-> told = raw])
  /\ UNCHANGED <<raw, out, runs>>
(* The user inverts the aligned poses.                                      *)
Did(op) == \E i \in 1..Len(hist) : hist[i].op = op
Invert == /\ files["B_H"].state = "good" /\ ~Did("invert")
          /\ files' = [files EXCEPT !["H_B"] = File("hand", "good"), !["E_W"] = File("eye", "good")]
          /\ hist' = Append(hist, [op |-> "invert"])
          /\ UNCHANGED <<raw, out, runs>>
(* A file is lost, or its content becomes unusable.                         *)
Damage(d) == /\ runs = 0 /\ Did("invert") /\ ~Did("damage")
             /\ \A f \in Inputs \cup {"offset"} : files[f].state = "good"
             /\ files' = [files EXCEPT ![d.file] = IF d.kind = "absent" THEN Absent ELSE File(@.of, d.kind)]
             /\ hist' = Append(hist, [op |-> "damage", file |-> d.file, kind |-> d.kind])
             /\ UNCHANGED <<raw, out, runs>>

(* ---- calibrating ---- *)
OneOf(a, b) == (a \/ b) /\ ~(a /\ b)
Clear(rq) == /\ OneOf("B_H" \in rq.in, "H_B" \in rq.in)
             /\ OneOf("W_E" \in rq.in, "E_W" \in rq.in)
             /\ ("json" \in rq.out => "offset" \in rq.in)
Read(rq) == (rq.in \cap Inputs) \cup (IF "json" \in rq.out THEN rq.in \cap {"offset"} ELSE {})
Usable(rq) == Clear(rq) /\ \A f \in Read(rq) : files[f].state = "good"
Calibrate(rq) ==
  /\ runs < MaxRuns /\ Did("invert")
  /\ LET ok == Usable(rq) IN
     /\ out' = IF ok THEN [o \in Outputs |-> IF o \in rq.out THEN "X" ELSE out[o]] ELSE out
     /\ hist' = Append(hist, [op |-> "calibrate", in |-> rq.in, out |-> rq.out, ok |-> ok])
  /\ runs' = runs + 1
  /\ UNCHANGED <<raw, files>>
Finish == /\ runs = MaxRuns \/ (Len(hist) = 1 /\ ~hist[1].ok)
          /\ hist /= <<>> /\ hist[Len(hist)].op /= "end"
          /\ PrintT(<<"@@", ToJson([raw |-> raw, hist |-> hist, out |-> out])>>)
          /\ hist' = Append(hist, [op |-> "end"])
          /\ UNCHANGED <<raw, files, out, runs>>
Next == \/ \E c \in {"Hamilton", "JPL", "unknown"} : Align(c)
        \/ Invert
        \/ \E d \in Damages : Damage(d)
        \/ \E rq \in Requests : Calibrate(rq)
        \/ Finish

(* ---- what has to hold ---- *)
\* An output is the calibration of the recording, or nothing new.
OneAnswer == \A o \in Outputs : out[o] \in {"none", "old", "X"}
Failed(h) == h.op \in {"align", "calibrate"} /\ ~h.ok
\* Outputs appear by successful runs that ask for them only.
OnlyAsked == \A o \in Outputs : out[o] = "X" =>
  \E i \in 1..Len(hist) : hist[i].op = "calibrate" /\ hist[i].ok /\ o \in hist[i].out
Served == \A i \in 1..Len(hist) : hist[i].op = "calibrate" /\ hist[i].ok => \A o \in hist[i].out : out[o] = "X"
=============================================================================
