------------------------------ MODULE ErrorMap -------------------------------
(***************************************************************************)
(* Maps of the loop error over the perturbation of the initial guess.  A    *)
(* run is perturbed in angle (a), translation (t) and time (s); the grid    *)
(* divides the magnitude of each into intervals, closed below and open      *)
(* above.  A map is drawn for every interval of one dimension, over the     *)
(* intervals of the two others; a cell stands for the runs in it.  Runs are *)
(* numbered, the number stands for the measured errors.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Grids,      \* [a, t, s |-> number of intervals, start, step |-> ticks]
          Per,        \* possible numbers of runs a cell has to have
          Modes,      \* "full": only runs that fill the cells, "free": any runs
          MaxRuns,
          Orders

VARIABLES grid, per, mode, runs, done
vars == <<grid, per, mode, runs, done>>

Dims == {"a", "t", "s"}
Abs(x) == IF x < 0 THEN -x ELSE x
\* The interval of a magnitude, counted from one; 0 below and n + 1 above the grid.
Interval(g, d, x) ==
  LET m == Abs(x) - g.start IN
  IF m < 0 THEN 0 ELSE IF m >= g[d] * g.step THEN g[d] + 1 ELSE m \div g.step + 1
Cell(g, r) == [d \in Dims |-> Interval(g, d, r[d])]
Inside(g, c) == \A d \in Dims : c[d] \in 1..g[d]

\* What is drawn against what.
Axes(order) == CASE order = "translation_time_angle" -> [plot |-> "t", y |-> "s", x |-> "a"]
                 [] order = "angle_time_translation" -> [plot |-> "a", y |-> "s", x |-> "t"]
                 [] order = "time_translation_angle" -> [plot |-> "s", y |-> "t", x |-> "a"]

Numbers(g, rs, ax, k, j, i) ==
  SelectSeq([n \in 1..Len(rs) |-> n],
            LAMBDA n : LET c == Cell(g, rs[n]) IN c[ax.plot] = k /\ c[ax.y] = j /\ c[ax.x] = i)
Maps(g, rs, ax) == [k \in 1..g[ax.plot] |-> [j \in 1..g[ax.y] |-> [i \in 1..g[ax.x] |-> Numbers(g, rs, ax, k, j, i)]]]
Complete(g, p, rs) ==
  /\ Len(rs) = p * g.a * g.t * g.s
  /\ \A n \in 1..Len(rs) : Inside(g, Cell(g, rs[n]))
  /\ \A k \in 1..g.t : \A j \in 1..g.s : \A i \in 1..g.a :
        Len(Numbers(g, rs, [plot |-> "t", y |-> "s", x |-> "a"], k, j, i)) = p

Total(g) == g.a * g.t * g.s

Init == /\ grid \in Grids /\ per \in Per /\ mode \in Modes
        /\ runs = <<>> /\ done = FALSE

\* Any perturbation on or between the lines of the grid, or around it.
Ticks(d) == 0..(grid.start + grid[d] * grid.step + 1)
Free == /\ ~done /\ mode = "free" /\ Len(runs) < MaxRuns
        /\ \E a \in Ticks("a"), t \in Ticks("t"), s \in Ticks("s"), sign \in {1, -1} :
             /\ (s = 0 => sign = 1)
             /\ runs' = Append(runs, [a |-> a, t |-> t, s |-> sign * s])
        /\ UNCHANGED <<grid, per, mode, done>>

\* A run for a cell that still needs one.
Fill == /\ ~done /\ mode = "full" /\ Len(runs) < per * Total(grid)
        /\ LET n == Len(runs)
               c == [a |-> n % grid.a, t |-> (n \div grid.a) % grid.t, s |-> (n \div (grid.a * grid.t)) % grid.s]
               Low(d) == grid.start + c[d] * grid.step
           IN \E u, v, w \in 0..(grid.step - 1), sign \in {1, -1} :
                /\ (Low("s") + w = 0 => sign = 1)
                /\ runs' = Append(runs, [a |-> Low("a") + u, t |-> Low("t") + v, s |-> sign * (Low("s") + w)])
        /\ UNCHANGED <<grid, per, mode, done>>

Draw(order) ==
  /\ ~done /\ (mode = "full" => Len(runs) = per * Total(grid))
  /\ done' = TRUE
  /\ LET ok == Complete(grid, per, runs)
     IN PrintT(<<"@@", ToJson([grid |-> grid, per |-> per, runs |-> runs, order |-> order, ok |-> ok,
                  axes |-> Axes(order), maps |-> IF ok THEN Maps(grid, runs, Axes(order)) ELSE <<>>])>>)
  /\ UNCHANGED <<grid, per, mode, runs>>

Next == Free \/ Fill \/ \E order \in Orders : Draw(order)

(* ---- what has to hold ---- *)
\* A map of every order shows each run exactly once, in the cell that contains it.
EveryRunOnce ==
  (\A n \in 1..Len(runs) : Inside(grid, Cell(grid, runs[n]))) =>
    \A order \in Orders : LET ax == Axes(order) IN
      \A n \in 1..Len(runs) :
        Cardinality({<<k, j, i>> \in (1..grid[ax.plot]) \X (1..grid[ax.y]) \X (1..grid[ax.x]) :
                       \E m \in 1..Len(Numbers(grid, runs, ax, k, j, i)) : Numbers(grid, runs, ax, k, j, i)[m] = n}) = 1
\* Intervals are closed below and open above, on magnitudes.
HalfOpen == \A n \in 1..Len(runs) : \A d \in Dims : LET c == Cell(grid, runs[n])[d] IN
              c \in 1..grid[d] => /\ grid.start + (c - 1) * grid.step <= Abs(runs[n][d])
                                  /\ Abs(runs[n][d]) < grid.start + c * grid.step
\* Filled cells make a complete map.
Filled == (mode = "full" /\ Len(runs) = per * Total(grid)) => Complete(grid, per, runs)
=============================================================================
