------------------------------ MODULE MC_Timer ------------------------------
EXTENDS Timer
CONSTANT Seconds
Times == (0..Seconds) \X (0..(Unit - 1))
MInit == TInit(<<0, 0>>)
MNext == TNext \/ \E t \in Times : Advance(t)
MSpec == MInit /\ [][MNext]_tvars
\* a timer which is not started again never tells less than before
Monotone == [][\A i \in Timers : exists[i] /\ start[i][1] >= 0 /\ start'[i] = start[i] => Later(Diff(now', start[i]), Diff(now, start[i]))]_tvars
=============================================================================
