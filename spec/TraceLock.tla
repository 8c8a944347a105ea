------------------------------ MODULE TraceLock ------------------------------
(* Checks recorded executions of the shared lock (traces.json) with RWLock.  *)
EXTENDS RWLock, Integers, Sequences, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES tr, i
Ev == Traces[tr][i]
TInit == RWInit /\ tr \in 1..Len(Traces) /\ i = 1
Ops == <<"lock", "lockS", "try", "tryS">>
Step == CASE Ev[1] = "B" -> Begin(Ev[2], Ops[Ev[3]])
          [] Ev[1] = "E" -> Enter(Ev[2])
          [] Ev[1] = "S" -> EnterShared(Ev[2])
          [] Ev[1] = "F" -> TryFail(Ev[2])
          [] Ev[1] = "L" -> Leave(Ev[2])
          [] Ev[1] = "R" -> LeaveShared(Ev[2])
          [] Ev[1] = "X" -> Left(Ev[2])
          [] Ev[1] = "U" -> Urge(Ev[2])
          \* at the end: nobody inside, no pending call
          [] Ev[1] = "Q" -> writer = {} /\ readers = {} /\ (\A t \in Threads : call[t] = "no") /\ UNCHANGED rwvars
TNext == \/ i <= Len(Traces[tr]) /\ Step /\ i' = i + 1 /\ UNCHANGED tr
         \/ i > Len(Traces[tr]) /\ UNCHANGED <<rwvars, tr, i>>
TSpec == TInit /\ [][TNext]_<<rwvars, tr, i>>
=============================================================================
