----------------------------- MODULE TraceCalls -----------------------------
(* Abstract specification of concurrent calls (A09): the result of a call is *)
(* the one it gives alone, whatever the other active calls; and the recorded *)
(* executions (traces.json) are checked against it.  When an allocation      *)
(* fails during a call (A11), the calls active meanwhile may fail or give    *)
(* another valid result; the later ones are not affected.  A call with a     *)
(* time limit (A08) gives a valid result, whatever the clock reads.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, TLC

Traces == JsonDeserialize("traces.json")

VARIABLES alone,   \* call -> <<return value, digest of the output>> when it runs alone
          active,  \* client -> call being executed
          done,    \* calls that returned
          excused, \* calls that were active together with a call with failing allocations
          faulty,  \* active calls with failing allocations
          timed,   \* calls with a time limit: any result that is valid, but no error
          tr, i
vars == <<alone, active, done, excused, faulty, timed, tr, i>>
Ev == Traces[tr][i]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == alone = << >> /\ active = << >> /\ done = {} /\ excused = {} /\ faulty = {} /\ timed = {} /\ tr \in 1..Len(Traces) /\ i = 1

Alone(k, ret, dig) == active = << >> /\ done = {} /\ alone' = Put(alone, k, <<ret, dig>>) /\ UNCHANGED <<active, done, excused, faulty, timed>>
BeginCall(c, k, bad, lim) ==
  /\ c \notin DOMAIN active /\ k \notin done /\ active' = Put(active, c, k)
  /\ faulty' = IF bad THEN faulty \cup {k} ELSE faulty
  /\ excused' = IF faulty' # {} THEN excused \cup {active'[x] : x \in DOMAIN active'} ELSE excused
  /\ timed' = IF lim THEN timed \cup {k} ELSE timed
  /\ UNCHANGED <<alone, done>>
\* own = TRUE: only the destination of the call was modified
EndCall(c, k, ret, dig, own) ==
  /\ c \in DOMAIN active /\ active[c] = k /\ own
  /\ <<ret, dig>> = alone[k] \/ k \in excused \/ (k \in timed /\ ret >= 0)
  /\ active' = Del(active, c) /\ done' = done \cup {k} /\ faulty' = faulty \ {k} /\ UNCHANGED <<alone, excused, timed>>
Quiet == active = << >> /\ done = DOMAIN alone /\ UNCHANGED <<alone, active, done, excused, faulty, timed>>
\* the result is still the one returned, and it is right (or an error)
Valid(k, ok) == active = << >> /\ k \in done /\ ok /\ UNCHANGED <<alone, active, done, excused, faulty, timed>>

Step == CASE Ev[1] = "A" -> Alone(Ev[2], Ev[3], Ev[4])
          [] Ev[1] = "B" -> BeginCall(Ev[2], Ev[3], FALSE, FALSE)
          [] Ev[1] = "F" -> BeginCall(Ev[2], Ev[3], TRUE, FALSE)
          [] Ev[1] = "G" -> BeginCall(Ev[2], Ev[3], FALSE, TRUE)
          [] Ev[1] = "E" -> EndCall(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6] = 1)
          [] Ev[1] = "Q" -> Quiet
          [] Ev[1] = "V" -> Valid(Ev[2], Ev[3] = 1)
Next == \/ i <= Len(Traces[tr]) /\ Step /\ i' = i + 1 /\ UNCHANGED tr
        \/ i > Len(Traces[tr]) /\ UNCHANGED vars
TSpec == Init /\ [][Next]_vars
=============================================================================
