----------------------------- MODULE TimeOffset -----------------------------
(***************************************************************************)
(* Estimation of the offset between two clocks from two recordings of one   *)
(* motion.                                                                   *)
(* Signals: the lag of the maximum of the cross correlation.                 *)
(* Recordings: a rotation with a piecewise constant rate (Profiles, per      *)
(* tick) is sampled by two sensors with their own periods, start and end     *)
(* times and clocks; both are brought to the larger period, differentiated,  *)
(* clipped, smoothed with a short kernel, and their magnitudes correlated.   *)
(* Each stream has its own kernel and limit; the limit leaves Clips of the   *)
(* largest rates above it.  A sensor may deliver one wrong orientation, off  *)
(* by the glitch, in the rest before the motion.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values, MaxLen,                 \* signals
          Profiles, Rests, Periods, Clocks, Kernels, Clips, Glitches

VARIABLES sa, sb, rec, phase
vars == <<sa, sb, rec, phase>>

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0

(* Element n of a is matched with element n + lag of b. *)
Lags(a, b) == (1 - Len(a))..(Len(b) - 1)
Corr(a, b, lag) == Sum([n \in 1..Len(a) |-> a[n] * At(b, n + lag)])
MaxLags(a, b) == LET c == [l \in Lags(a, b) |-> Corr(a, b, l)] IN
                   {l \in Lags(a, b) : \A k \in Lags(a, b) : c[k] <= c[l]}

(* ---- signals ---- *)
NoRec == [none |-> TRUE]
Init == sa = <<>> /\ sb = <<>> /\ rec = NoRec /\ phase = "A"
SampleA(v) == phase = "A" /\ Len(sa) < MaxLen /\ sa' = Append(sa, v) /\ UNCHANGED <<sb, rec, phase>>
EndA == phase = "A" /\ Len(sa) >= 2 /\ phase' = "B" /\ UNCHANGED <<sa, sb, rec>>
SampleB(v) == phase = "B" /\ Len(sb) < MaxLen /\ sb' = Append(sb, v) /\ UNCHANGED <<sa, rec, phase>>
Estimate == /\ phase = "B"
            /\ Len(sb) >= 2
            /\ phase' = "done"
            /\ PrintT(<<"@@", ToJson([op |-> "signals", a |-> sa, b |-> sb, lags |-> MaxLags(sa, sb)])>>)
            /\ UNCHANGED <<sa, sb, rec>>
Next == (\E v \in Values : SampleA(v) \/ SampleB(v)) \/ EndA \/ Estimate

(* A signal and its delayed copy have one best lag, the delay, unless the   *)
(* signal is zero: the reason why the estimate is right.                    *)
Delayed(s, k) == [i \in 1..(Len(s) + k) |-> At(s, i - k)]
Zero(s) == \A i \in 1..Len(s) : s[i] = 0
DelayFound == \A k \in 0..2 : ~Zero(sa) => MaxLags(sa, Delayed(sa, k)) = {k} /\ MaxLags(Delayed(sa, k), sa) = {-k}
(* Exchanging the signals negates the lag. *)
Antisymmetric == phase = "done" => MaxLags(sb, sa) = {-l : l \in MaxLags(sa, sb)}
Shape == phase = "done" => MaxLags(sa, sb) # {}

(* ---- recordings ---- *)
Length(p) == Len(p)
RECURSIVE Angle(_, _)
Angle(p, t) == IF t <= 0 THEN 0 ELSE Angle(p, t - 1) + At(p, t)
(* A recording starts at -pre and ends at or after the motion plus post, a  *)
(* whole number of large periods later.                                     *)
Spans(p, pre, post, big) == LET n == (pre + Length(p) + post + big - 1) \div big IN n * big
Rates(p, pre, n, big) == [k \in 1..n |-> Angle(p, k * big - pre) - Angle(p, (k - 1) * big - pre)]
Glitched(s, g) == [k \in 1..Len(s) |-> s[k] + (IF k = 1 THEN g ELSE IF k = 2 THEN -g ELSE 0)]
(* The value that at most c rates exceed in magnitude. *)
Limit(s, c) == CHOOSE v \in {Abs(s[k]) : k \in 1..Len(s)} \cup {0} :
                 /\ Cardinality({k \in 1..Len(s) : Abs(s[k]) > v}) <= c
                 /\ \A w \in {Abs(s[k]) : k \in 1..Len(s)} \cup {0} :
                      Cardinality({k \in 1..Len(s) : Abs(s[k]) > w}) <= c => v <= w
Clip(s, c) == LET m == Limit(s, c) IN [k \in 1..Len(s) |-> IF s[k] > m THEN m ELSE IF s[k] < -m THEN -m ELSE s[k]]
Smooth(s, kernel) == LET h == kernel \div 2 IN [k \in 1..Len(s) |-> Sum([d \in 1..kernel |-> At(s, k + d - 1 - h)])]
Signal(p, r, big) ==
  LET s == Smooth(Clip(Glitched(Rates(p, r.pre, Spans(p, r.pre, r.post, big) \div big, big), r.glitch), r.clip), r.kernel) IN [k \in 1..Len(s) |-> Abs(s[k])]
Max(a, b) == IF a >= b THEN a ELSE b
Big == Max(rec.a.period, rec.b.period)
SigA == Signal(rec.profile, rec.a, Big)
SigB == Signal(rec.profile, rec.b, Big)
(* First stamps: sensor A shows true time plus base, B runs clock ahead.    *)
StartDiff == (-rec.b.pre + rec.clock) - (-rec.a.pre)
Offsets == {l * Big + StartDiff : l \in MaxLags(SigA, SigB)}

Sensors == [pre : Rests, post : Rests, period : Periods, kernel : Kernels, clip : Clips, glitch : Glitches]
RInit == /\ sa = <<>> /\ sb = <<>>
         /\ rec \in [profile : Profiles, a : Sensors, b : Sensors, clock : Clocks]
         /\ phase = "recorded"
REstimate == /\ phase = "recorded"
             /\ phase' = "done"
             /\ PrintT(<<"@@", ToJson([op |-> "recordings", rec |-> rec, big |-> Big, offsets |-> Offsets,
                                       spanA |-> Spans(rec.profile, rec.a.pre, rec.a.post, Big),
                                       spanB |-> Spans(rec.profile, rec.b.pre, rec.b.post, Big)])>>)
             /\ UNCHANGED <<sa, sb, rec>>
RNext == REstimate
(* The property: the clock difference is found up to the larger period.     *)
Sound(s) == s.clip = 0 /\ s.glitch = 0
Recovered == (phase = "recorded" /\ Sound(rec.a) /\ Sound(rec.b)) => \A o \in Offsets : Abs(o - rec.clock) <= (IF rec.a.kernel = rec.b.kernel THEN Big ELSE 2 * Big)
(* ... and exactly when both sensors sample at the same instants and are     *)
(* treated alike.                                                           *)
SameInstants == (rec.a.pre - rec.b.pre) % Big = 0 /\ rec.a.kernel = rec.b.kernel
Exact == (phase = "recorded" /\ SameInstants /\ Sound(rec.a) /\ Sound(rec.b)) => Offsets = {rec.clock}
=============================================================================
