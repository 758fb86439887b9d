----------------------------- MODULE SearchTrace ----------------------------
(***************************************************************************)
(* Validates recorded runs of the real search: the draws of a run are taken *)
(* as actions of Search, and its result has to be one Search allows.        *)
(* A run is [cfg, table, draws, claims, success], claims being the samples  *)
(* whose candidate has exactly the reported transform and figures.          *)
(***************************************************************************)
EXTENDS Search

CONSTANT Runs
VARIABLES r, verdict
tvars == <<vars, r, verdict>>

TInit == /\ r \in 1..Len(Runs)
         /\ cfg = Runs[r].cfg
         /\ table = Runs[r].table
         /\ draws = <<>>
         /\ full = 0
         /\ best = 0
         /\ evaluated = {}
         /\ status = "running"
         /\ verdict = "none"

Left == Len(draws) < Len(Runs[r].draws)
TDraw == /\ verdict = "none"
         /\ Left
         /\ Draw(Runs[r].draws[Len(draws) + 1])
         /\ UNCHANGED <<r, verdict>>
TStop == /\ verdict = "none"
         /\ ~Left
         /\ Stop
         /\ UNCHANGED <<r, verdict>>

(* Total: every way to go wrong has its clause. *)
Judgement ==
  CASE Left /\ StopCond -> "went on although it had to stop"
    [] ~Left /\ ~StopCond -> "stopped too early"
    [] Runs[r].success /\ status = "failure" -> "reported success without a candidate"
    [] ~Runs[r].success /\ status = "success" -> "reported failure although a candidate qualifies"
    [] Runs[r].success /\ \A c \in 1..Len(Runs[r].claims) : Runs[r].claims[c] \notin evaluated ->
         "result is not an evaluated candidate with its own figures"
    [] Runs[r].success /\ \A c \in 1..Len(Runs[r].claims) : Runs[r].claims[c] \in evaluated => Dominated(Runs[r].claims[c]) ->
         "an evaluated candidate is better in both errors"
    [] OTHER -> "ok"
TJudge == /\ verdict = "none"
          /\ \/ Left /\ StopCond
             \/ ~Left /\ ~StopCond
             \/ status # "running"
          /\ verdict' = Judgement
          /\ PrintT(<<"@@", ToJson([run |-> r, verdict |-> verdict'])>>)
          /\ UNCHANGED <<vars, r>>
TNext == TDraw \/ TStop \/ TJudge
=============================================================================
