------------------------------ MODULE PoseFile ------------------------------
(***************************************************************************)
(* Time stamped poses in memory and in files.  A row is [t, p, q]: numbers  *)
(* of a stamp and of a position, and an orientation, an integer quaternion  *)
(* of any positive scale.  Files carry no convention: reading one as JPL    *)
(* conjugates the orientations, and reading normalizes them.                *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS Tables, MaxOps, Names

VARIABLES mem, files, hist
vars == <<mem, files, hist>>

None == <<>>
Init == /\ mem \in Tables
        /\ files = [n \in Names |-> None]
        /\ hist = <<[op |-> "begin", mem |-> mem]>>

Normalized(row) == [row EXCEPT !.q = QPrimitive(row.q)]
Conjugated(row) == [row EXCEPT !.q = QConj(row.q)]
AsRead(table, jpl) == [i \in 1..Len(table) |-> IF jpl THEN Conjugated(Normalized(table[i])) ELSE Normalized(table[i])]

Log(r) == hist' = Append(hist, r)
Going == Len(hist) <= MaxOps
Write(n) == /\ Going
            /\ files' = [files EXCEPT ![n] = mem]
            /\ Log([op |-> "write", name |-> n, mem |-> mem])
            /\ UNCHANGED mem
Read(n, jpl) == /\ Going
                /\ files[n] # None
                /\ mem' = AsRead(files[n], jpl)
                /\ Log([op |-> "read", name |-> n, jpl |-> jpl, mem |-> mem'])
                /\ UNCHANGED files
(* A part of the poses, as after filtering. *)
Cut == /\ Going
       /\ Len(mem) > 1
       /\ mem' = Tail(mem)
       /\ Log([op |-> "cut", mem |-> mem'])
       /\ UNCHANGED files
Finish == /\ Len(hist) = MaxOps + 1
          /\ PrintT(<<"@@", ToJson(hist)>>)
          /\ hist' = Append(hist, [op |-> "end", mem |-> mem])
          /\ UNCHANGED <<mem, files>>
Next == (\E n \in Names : Write(n) \/ \E jpl \in BOOLEAN : Read(n, jpl)) \/ Cut \/ Finish

(* ---- laws ---- *)
Stamps(t) == [i \in 1..Len(t) |-> <<t[i].t, t[i].p>>]
Turns(t) == [i \in 1..Len(t) |-> QPrimitive(t[i].q)]
(* Reading what is in a file gives its stamps and positions; as Hamilton    *)
(* its orientations, and as JPL twice, by way of a file, as well.           *)
RoundTrip == \A n \in Names : files[n] # None =>
               /\ Stamps(AsRead(files[n], FALSE)) = Stamps(files[n])
               /\ Stamps(AsRead(files[n], TRUE)) = Stamps(files[n])
               /\ Turns(AsRead(files[n], FALSE)) = Turns(files[n])
               /\ AsRead(AsRead(files[n], TRUE), TRUE) = AsRead(files[n], FALSE)
=============================================================================
