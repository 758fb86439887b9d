------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The search over samples of pose pairs.  A sample either qualifies as a   *)
(* candidate, with a position error p, an orientation error o and a number  *)
(* of inliers k, or it does not (rejected before or by the solver).  Random *)
(* search draws samples until it has evaluated enough candidates,           *)
(* exhaustive search takes every sample once, in order.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Settings,   \* [mode, maxFull, confident, maxDraws, minInliers]
          Outcomes,   \* [ok, p, o, k]
          NumSamples

VARIABLES cfg, table, draws, full, best, evaluated, status
vars == <<cfg, table, draws, full, best, evaluated, status>>

(* A sample that leads to an evaluated candidate. *)
Qualifies(s) == table[s].ok /\ table[s].k >= cfg.minInliers
Better(s, b) == table[s].p < table[b].p /\ table[s].o < table[b].o

Exhaustive == cfg.mode = "exhaustive"
StopCond ==
  IF Exhaustive THEN Len(draws) = Len(table)
  ELSE \/ full >= cfg.maxFull
       \/ Len(draws) >= cfg.maxDraws
       \/ cfg.confident > 0 /\ full >= cfg.confident

Init == /\ cfg \in Settings
        /\ table \in [1..NumSamples -> Outcomes]
        /\ draws = <<>>
        /\ full = 0
        /\ best = 0
        /\ evaluated = {}
        /\ status = "running"

Draw(s) ==
  /\ status = "running"
  /\ ~StopCond
  /\ Exhaustive => s = Len(draws) + 1
  /\ draws' = Append(draws, s)
  /\ IF Qualifies(s)
     THEN /\ full' = full + 1
          /\ evaluated' = evaluated \cup {s}
          /\ best' = IF best = 0 \/ Better(s, best) THEN s ELSE best
     ELSE UNCHANGED <<full, evaluated, best>>
  /\ UNCHANGED <<cfg, table, status>>
Stop ==
  /\ status = "running"
  /\ StopCond
  /\ status' = IF best = 0 THEN "failure" ELSE "success"
  /\ UNCHANGED <<cfg, table, draws, full, best, evaluated>>

Next == (\E s \in 1..Len(table) : Draw(s)) \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Dominated(b) == \E s \in evaluated : Better(s, b)
BestEvaluated == (best = 0 <=> evaluated = {}) /\ (best # 0 => best \in evaluated)
BestNotDominated == best # 0 => ~Dominated(best)
EnoughInliers == best # 0 => table[best].k >= cfg.minInliers
Honest == /\ status = "failure" => evaluated = {}
          /\ status = "success" => best # 0
Complete == (Exhaustive /\ status # "running") => evaluated = {s \in 1..Len(table) : Qualifies(s)}
Bounded == ~Exhaustive => Len(draws) <= cfg.maxDraws /\ full <= cfg.maxFull
Terminates == <>(status # "running")
=============================================================================
