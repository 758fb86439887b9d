----------------------------- MODULE Experiment -----------------------------
(***************************************************************************)
(* The experiment over sets of poses.  A run goes through the algorithms,   *)
(* the iterations of each (one if the algorithm is deterministic) and the   *)
(* pairs of sets; every pair is calibrated and, for some algorithms,        *)
(* refined, either of which can fail.  After the last pair of an iteration  *)
(* its rows are appended to the table.  Runs are repeated into one table.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sets, Algorithms, Iterations, MaxRuns, MaxFaults, Told

VARIABLES phase, runs, alg, it, batch, table, headers, refined, stored, faults, hist
vars == <<phase, runs, alg, it, batch, table, headers, refined, stored, faults, hist>>

RECURSIVE PairList(_, _)
PairList(i, j) == IF i >= Sets THEN <<>>
                  ELSE IF j > Sets THEN PairList(i + 1, i + 2)
                  ELSE <<<<i, j>>>> \o PairList(i, j + 1)
Pairs == PairList(1, 2)
P == Len(Pairs)
Its(a) == IF Algorithms[a].deterministic THEN 1 ELSE Iterations

\* "nocal": no calibration; "optfail": the refinement fails; "nomatch": its
\* result matches no poses.
Outcomes(a) == IF Algorithms[a].refine THEN {"ok", "nocal", "optfail", "nomatch"} ELSE {"ok", "nocal"}

Init == /\ phase = "idle" /\ runs = 0 /\ alg = 1 /\ it = 0 /\ batch = <<>>
        /\ table = <<>> /\ headers = 0 /\ refined = <<>> /\ stored = <<>> /\ faults = 0 /\ hist = <<>>

StartRun == /\ phase = "idle" /\ runs < MaxRuns
            /\ phase' = "running" /\ runs' = runs + 1
            /\ alg' = 1 /\ it' = 0 /\ batch' = <<>>
            /\ headers' = IF headers = 0 THEN 1 ELSE headers
            /\ UNCHANGED <<table, refined, stored, faults, hist>>

Calibrate(o) == /\ phase = "running" /\ Len(batch) < P
                /\ o \in Outcomes(alg)
                /\ o /= "ok" => faults < MaxFaults
                /\ faults' = IF o = "ok" THEN faults ELSE faults + 1
                /\ batch' = Append(batch, o)
                /\ refined' = IF Algorithms[alg].refine /\ o /= "nocal"
                              THEN Append(refined, [run |-> runs, alg |-> alg, it |-> it, pair |-> Len(batch) + 1])
                              ELSE refined
                /\ hist' = Append(hist, o)
                /\ UNCHANGED <<phase, runs, alg, it, table, headers, stored>>

Success(o) == o /= "nocal"
Refined(o) == ~Algorithms[alg].refine \/ o = "ok"
\* A transform exists even if it turned out to match nothing.
Has(o) == Success(o) /\ o /= "optfail"
All == \A k \in 1..P : Success(batch[k]) /\ Refined(batch[k])
Rows == [k \in 1..P |-> [run |-> runs, alg |-> alg, it |-> it, pair |-> k, hand |-> Pairs[k][1], eye |-> Pairs[k][2],
                         success |-> Success(batch[k]), refined |-> Refined(batch[k]), loop |-> All]]
Kept == SelectSeq([k \in 1..P |-> [run |-> runs, alg |-> alg, it |-> it, pair |-> k, has |-> Has(batch[k])]], LAMBDA r : r.has)
Record == /\ phase = "running" /\ Len(batch) = P
          /\ table' = table \o Rows
          /\ stored' = stored \o Kept
          /\ batch' = <<>>
          /\ IF it + 1 < Its(alg) THEN it' = it + 1 /\ UNCHANGED <<alg, phase>>
             ELSE /\ it' = 0
                  /\ IF alg < Len(Algorithms) THEN alg' = alg + 1 /\ UNCHANGED phase
                     ELSE alg' = 1 /\ phase' = "idle"
          /\ UNCHANGED <<runs, headers, refined, faults, hist>>

Finish == /\ phase = "idle" /\ runs = MaxRuns
          /\ phase' = "done"
          /\ (Told => PrintT(<<"@@", ToJson([sets |-> Sets, outcomes |-> hist, table |-> table, headers |-> headers,
                                           refined |-> refined, stored |-> stored])>>))
          /\ UNCHANGED <<runs, alg, it, batch, table, headers, refined, stored, faults, hist>>

Next == StartRun \/ (\E o \in {"ok", "nocal", "optfail", "nomatch"} : Calibrate(o)) \/ Record \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what has to hold ---- *)
RECURSIVE Sum(_)
Sum(a) == IF a = 0 THEN 0 ELSE Its(a) + Sum(a - 1)
PerRun == P * Sum(Len(Algorithms))
HeaderOnce == headers <= 1 /\ (table /= <<>> => headers = 1)
\* Whatever failed, nothing is lost and nothing is recorded twice.
Complete == /\ phase \in {"idle", "done"} => Len(table) = runs * PerRun
            /\ Cardinality({<<table[i].run, table[i].alg, table[i].it, table[i].pair>> : i \in 1..Len(table)}) = Len(table)
Before(r, s) == \/ r.run < s.run
                \/ r.run = s.run /\ r.alg < s.alg
                \/ r.run = s.run /\ r.alg = s.alg /\ r.it < s.it
                \/ r.run = s.run /\ r.alg = s.alg /\ r.it = s.it /\ r.pair < s.pair
Ordered == \A i \in 1..(Len(table) - 1) : Before(table[i], table[i + 1])
\* The loop is closed over exactly the pairs of one iteration, if all succeeded.
Peers(r) == {i \in 1..Len(table) : table[i].run = r.run /\ table[i].alg = r.alg /\ table[i].it = r.it}
LoopIff == \A i \in 1..Len(table) : table[i].loop <=> \A j \in Peers(table[i]) : table[j].success /\ table[j].refined
Appended == [][\A i \in 1..Len(table) : table'[i] = table[i]]_vars
Ends == <>(phase = "done")
=============================================================================
