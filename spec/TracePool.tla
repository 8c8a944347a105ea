------------------------------ MODULE TracePool ------------------------------
(* Checks recorded executions of the pool against Pool.  traces.json holds a *)
(* list of executions, each a list of events <<name, number, number, ...>>.  *)
(* An execution the specification cannot follow is a deadlock of this module.*)
EXTENDS Pool, Sequences, Integers, Json, TLC

Traces == JsonDeserialize("traces.json")

VARIABLES tr, i
Ev == Traces[tr][i]

TInit == PoolInit /\ tr \in 1..Len(Traces) /\ i = 1

Same == UNCHANGED poolvars

Step ==
  CASE Ev[1] = "N" -> Create
    [] Ev[1] = "P" -> BeginPush(Ev[2])
    [] Ev[1] = "p" -> EndPush(Ev[2], Ev[3] = 1, Ev[4] = 1)
    [] Ev[1] = "S" -> Start(Ev[2])
    [] Ev[1] = "F" -> Finish(Ev[2])
    [] Ev[1] = "W" -> BeginWait(Ev[2])
    [] Ev[1] = "w" -> EndWait(Ev[2])
    [] Ev[1] = "D" -> BeginDestroy
    [] Ev[1] = "d" -> EndDestroy
    \* after the destruction no task object is left
    [] Ev[1] = "L" -> life = "gone" /\ Ev[2] = 0 /\ Same
    \* growth of the memory in use between identical rounds of executions
    [] Ev[1] = "G" -> Ev[2] < 2000 /\ Same

TNext == \/ i <= Len(Traces[tr]) /\ Step /\ i' = i + 1 /\ UNCHANGED tr
         \/ i > Len(Traces[tr]) /\ UNCHANGED <<poolvars, tr, i>>
TSpec == TInit /\ [][TNext]_<<poolvars, tr, i>>
TAlias == [trace |-> tr, event |-> i]
=============================================================================
