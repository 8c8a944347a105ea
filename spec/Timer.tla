------------------------------- MODULE Timer -------------------------------
(* Elapsed time: a clock gives pairs (seconds, fraction), a timer remembers the  *)
(* reading of its last tick and tells the time elapsed since, as such a pair.    *)
EXTENDS Integers
CONSTANTS Timers, Unit      \* fractions of a second: 0..Unit-1
VARIABLES now, start, exists, said
tvars == <<now, start, exists, said>>

Diff(b, a) == IF b[2] >= a[2] THEN <<b[1] - a[1], b[2] - a[2]>> ELSE <<b[1] - a[1] - 1, Unit + b[2] - a[2]>>
Later(b, a) == b[1] > a[1] \/ (b[1] = a[1] /\ b[2] >= a[2])
Sum(a, d) == LET f == a[2] + d[2] IN <<a[1] + d[1] + f \div Unit, f % Unit>>

TInit(t0) == now = t0 /\ start = [i \in Timers |-> t0] /\ exists = [i \in Timers |-> FALSE] /\ said = <<0, 0>>
TNew(i)     == ~exists[i] /\ exists' = [exists EXCEPT ![i] = TRUE] /\ start' = [start EXCEPT ![i] = <<-1, 0>>] /\ UNCHANGED <<now, said>>
TDelete(i)  == exists[i] /\ exists' = [exists EXCEPT ![i] = FALSE] /\ UNCHANGED <<now, start, said>>
Advance(t)  == Later(t, now) /\ now' = t /\ UNCHANGED <<start, exists, said>>
Tick(i)     == exists[i] /\ start' = [start EXCEPT ![i] = now] /\ UNCHANGED <<now, exists, said>>
\* (nothing is told by a timer that was never started)
Tock(i)     == exists[i] /\ start[i][1] >= 0 /\ said' = Diff(now, start[i]) /\ UNCHANGED <<now, start, exists>>
TNext == \E i \in Timers : TNew(i) \/ TDelete(i) \/ Tick(i) \/ Tock(i)
-----------------------------------------------------------------------------
\* what a timer would tell is a duration, and the start plus this duration is the present
Elapsed == \A i \in Timers : exists[i] /\ start[i][1] >= 0 =>
              LET d == Diff(now, start[i]) IN d[1] >= 0 /\ d[2] \in 0..(Unit - 1) /\ Sum(start[i], d) = now
SaidOK == said[1] >= 0 /\ said[2] \in 0..(Unit - 1)
=============================================================================
