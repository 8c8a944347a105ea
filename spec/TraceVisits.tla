----------------------------- MODULE TraceVisits -----------------------------
(* Checks recorded concurrent visits of a cvector (traces.json) with Visits. *)
EXTENDS Visits, Sequences, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, i
Ev == Traces[tr][i]
TInit == VInit /\ tr \in 1..Len(Traces) /\ i = 1
Step == CASE Ev[1] = "B" -> Begin(Ev[2], Ev[3], Ev[4], Ev[5])
          [] Ev[1] = "b" -> Enter(Ev[2], Ev[3], Ev[4])
          [] Ev[1] = "e" -> LeaveRead(Ev[2], Ev[3], Ev[4], Ev[5] = 1)
          [] Ev[1] = "w" -> LeaveWrite(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6] = 1)
          [] Ev[1] = "R" -> Read(Ev[2], Ev[3], Ev[4])
          [] Ev[1] = "H" -> Hold(Ev[2], Ev[3], Ev[4])
          [] Ev[1] = "U" -> Unhold(Ev[2], Ev[3], Ev[4])
          [] Ev[1] = "E" -> End(Ev[2], Ev[3])
          [] Ev[1] = "X" -> Throw(Ev[2])
          [] Ev[1] = "Z" -> Refusals
          [] Ev[1] = "Q" -> Quiet
          [] Ev[1] = "r" -> Final(Ev[2], Ev[3])
TNext == \/ i <= Len(Traces[tr]) /\ Step /\ i' = i + 1 /\ UNCHANGED tr
         \/ i > Len(Traces[tr]) /\ UNCHANGED <<visvars, tr, i>>
TSpec == TInit /\ [][TNext]_<<visvars, tr, i>>
=============================================================================
