--------------------------- MODULE HappensBefore ---------------------------
(* The order that the language guarantees between the actions of several threads (C++14, [intro.multithread]), kept as
   vector clocks, for property A12.

   The state of an execution, a record:
     vc[t][u]    the steps of thread u that happen before the next action of t
     at[o]       per synchronisation object (atomic variable or mutex): the clock that an acquire of o receives
     head[o]     the thread that started the release sequence of o
     rf[t]       the clock of the last release fence of t
     pend[t]     what an acquire fence of t would receive: the clocks read by relaxed loads
   A step of a thread that others can synchronise with ends with an increment of its own clock, hence an action of
   thread u with clock c = vc[u][u] happens before an action of t exactly when c <= vc[t][u]. *)
EXTENDS Integers, FiniteSets

Max2(a, b) == IF a >= b THEN a ELSE b
Join(c, d) == [u \in DOMAIN c |-> Max2(c[u], d[u])]
Zero(Ts) == [u \in Ts |-> 0]
Start(Ts, Os) == [vc |-> [t \in Ts |-> [u \in Ts |-> IF t = u THEN 1 ELSE 0]], at |-> [o \in Os |-> Zero(Ts)], head |-> [o \in Os |-> -1],
                  rf |-> [t \in Ts |-> Zero(Ts)], pend |-> [t \in Ts |-> Zero(Ts)]]

Tick(s, t) == [s EXCEPT !.vc[t][t] = @ + 1]
\* an atomic load: with acquire order, all that happened before the release it reads from has happened
Load(s, t, o, acq) == IF acq THEN [s EXCEPT !.vc[t] = Join(@, s.at[o])] ELSE [s EXCEPT !.pend[t] = Join(@, s.at[o])]
\* an atomic store: releases the clock of t, or that of its last release fence; the release sequence goes on
\* through the later stores of the same thread
Store(s, t, o, rel) ==
   LET s1 == [s EXCEPT !.at[o] = IF rel THEN s.vc[t] ELSE IF s.head[o] = t THEN Join(@, s.rf[t]) ELSE s.rf[t],
                       !.head[o] = IF rel \/ s.head[o] # t THEN t ELSE @]
   IN Tick(s1, t)
\* an atomic read-modify-write: continues the release sequence
Update(s, t, o, acq, rel) ==
   LET s1 == Load(s, t, o, acq)
       s2 == [s1 EXCEPT !.at[o] = Join(@, IF rel THEN s1.vc[t] ELSE s1.rf[t]), !.head[o] = IF @ = -1 THEN t ELSE @]
   IN Tick(s2, t)
Fence(s, t, acq, rel) ==
   LET s1 == IF acq THEN [s EXCEPT !.vc[t] = Join(@, s.pend[t])] ELSE s
       s2 == IF rel THEN [s1 EXCEPT !.rf[t] = s1.vc[t]] ELSE s1
   IN Tick(s2, t)
Lock(s, t, o) == [s EXCEPT !.vc[t] = Join(@, s.at[o])]
Unlock(s, t, o) == Tick([s EXCEPT !.at[o] = s.vc[t]], t)
Create(s, t, u) == Tick([s EXCEPT !.vc[u] = [Join(@, s.vc[t]) EXCEPT ![u] = Max2(@, 1)]], t)
Ended(s, t, u) == [s EXCEPT !.vc[t] = Join(@, s.vc[u])]

\* kinds of accesses: 0 read, 1 write, 2 atomic read, 3 atomic write
Writes(k) == k \in {1, 3}
Conflict(j, k) == (Writes(j) \/ Writes(k)) /\ ~(j >= 2 /\ k >= 2)
\* an action of thread u with clock c happens before what thread t does next
Before(s, u, c, t) == c <= s.vc[t][u]
=============================================================================
