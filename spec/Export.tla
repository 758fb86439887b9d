-------------------------------- MODULE Export ------------------------------
(***************************************************************************)
(* Export of a frame from a recording of transforms.  First the recording   *)
(* is made: a history of transforms [child, at], in any order of stamps.    *)
(* Then it is exported: every transform of the source frame is looked up in *)
(* the tree built from the whole recording, at its own stamp.               *)
(*                                                                          *)
(* Frames: world <- base <- cam <- tip and base <- tool.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Children, Stamps, MaxTransforms, Queries,
          Recordings  \* given ones, beyond what is enumerated

VARIABLES msgs, pc, rows, last, query, outcome
vars == <<msgs, pc, rows, last, query, outcome>>

Parent == [base |-> "world", cam |-> "base", tip |-> "cam", tool |-> "base"]

Init == /\ msgs = <<>> /\ pc = 0 /\ rows = <<>> /\ last = 0
        /\ query \in Queries /\ outcome = <<>>

Record(c, t) == /\ pc = 0 /\ Len(msgs) < MaxTransforms
                /\ msgs' = Append(msgs, [child |-> c, at |-> t])
                /\ UNCHANGED <<pc, rows, last, query, outcome>>
Close == /\ pc = 0 /\ pc' = 1
         /\ UNCHANGED <<msgs, rows, last, query, outcome>>

GInit == /\ msgs \in Recordings /\ pc = 0 /\ rows = <<>> /\ last = 0
         /\ query \in Queries /\ outcome = <<>>

(* ---- the tree of the whole recording ---- *)
Present == {msgs[i].child : i \in 1..Len(msgs)}
Known(f) == f \in Present \/ \E c \in Present : Parent[c] = f
Times(c) == {msgs[i].at : i \in {j \in 1..Len(msgs) : msgs[j].child = c}}
RECURSIVE Chain(_)
Chain(f) == IF f \in Present THEN <<f>> \o Chain(Parent[f]) ELSE <<f>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
\* Frames whose transform to the parent is needed between a and b.
Edges(a, b) == (ToSet(Chain(a)) \ ToSet(Chain(b))) \cup (ToSet(Chain(b)) \ ToSet(Chain(a)))
Connected(a, b) == Known(a) /\ Known(b) /\ ToSet(Chain(a)) \cap ToSet(Chain(b)) /= {}
Found(a, b, t) == Connected(a, b) /\ \A c \in Edges(a, b) : (\E s \in Times(c) : s <= t) /\ (\E s \in Times(c) : s >= t)

(* ---- export, one transform at a time ---- *)
Seen(m) == Found(query.target, query.source, m.at) = TRUE     \* a value, not a choice of witnesses
Step(m) == /\ pc >= 1 /\ pc <= Len(msgs) /\ m = msgs[pc]
           /\ pc' = pc + 1
           /\ UNCHANGED <<msgs, query>>
Other(m) == Step(m) /\ m.child /= query.source /\ UNCHANGED <<rows, last, outcome>>
Missing(m) == /\ Step(m) /\ m.child = query.source /\ ~Seen(m)
              /\ outcome' = Append(outcome, "missing") /\ UNCHANGED <<rows, last>>
Repeated(m) == /\ Step(m) /\ m.child = query.source /\ Seen(m)
               /\ rows /= <<>> /\ m.at <= last
               /\ outcome' = Append(outcome, "repeated") /\ UNCHANGED <<rows, last>>
Write(m) == /\ Step(m) /\ m.child = query.source /\ Seen(m)
            /\ rows = <<>> \/ m.at > last
            /\ rows' = Append(rows, m.at) /\ last' = m.at
            /\ outcome' = Append(outcome, "written")
Finish == /\ pc = Len(msgs) + 1 /\ pc' = pc + 1
          /\ PrintT(<<"@@", ToJson([msgs |-> msgs, query |-> query, rows |-> rows, outcome |-> outcome])>>)
          /\ UNCHANGED <<msgs, rows, last, query, outcome>>
Next == \/ \E c \in Children, t \in Stamps : Record(c, t)
        \/ Close \/ Finish
        \/ \E m \in ToSet(msgs) : Other(m) \/ Missing(m) \/ Repeated(m) \/ Write(m)

(* ---- what has to hold ---- *)
Increasing == \A i \in 1..(Len(rows) - 1) : rows[i] < rows[i + 1]
\* Nothing is lost: an exported history holds every stamp that can be found and is above all found before it.
Complete == pc = Len(msgs) + 1 =>
  LET src == {i \in 1..Len(msgs) : msgs[i].child = query.source /\ Found(query.target, query.source, msgs[i].at)}
      new == {i \in src : \A j \in src : j < i => msgs[j].at < msgs[i].at}
  IN ToSet(rows) = {msgs[i].at : i \in new} /\ Len(rows) = Cardinality(new)
OwnTime == rows /= <<>> => Found(query.target, query.source, rows[Len(rows)])     \* in every state, so for every row
=============================================================================
