------------------------------- MODULE RWLock -------------------------------
(* Abstract specification of the shared lock (property B06).                 *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, MaxBypass

VARIABLES writer,   \* set of threads inside an exclusive section
          readers,  \* set of threads inside a shared section
          call,     \* thread -> operation in progress ("no", "lock", "lockS", "try", "tryS", "rel")
          crowded,  \* threads in a non-blocking call that overlapped another user of the lock
          urged,    \* writers that had the processor while waiting
          bypass    \* per thread: shared sections entered while it was urged
rwvars == <<writer, readers, call, crowded, urged, bypass>>

RWInit == /\ writer = {} /\ readers = {} /\ call = [t \in Threads |-> "no"] /\ crowded = {} /\ urged = {}
          /\ bypass = [t \in Threads |-> 0]

Holds(t) == t \in writer \cup readers

\* non-blocking calls in progress, t's excepted
Pending(t) == {u \in Threads : u # t /\ call[u] \in {"try", "tryS"}}
\* a reader that is just inside does not make another reader's attempt fail
Hinders(u, op) == call[u] # "no" \/ u \in writer \/ (u \in readers /\ op # "tryS")

Begin(t, op) ==
  /\ call[t] = "no" /\ ~Holds(t) /\ op \in {"lock", "lockS", "try", "tryS"}
  /\ call' = [call EXCEPT ![t] = op]
  \* every non-blocking call in progress now overlaps this one
  /\ crowded' = Pending(t) \cup crowded \cup (IF \E u \in Threads : u # t /\ Hinders(u, op) THEN {t} ELSE {})
  /\ UNCHANGED <<writer, readers, urged, bypass>>

\* the exclusive section begins: nobody else is inside
Enter(t) ==
  /\ call[t] \in {"lock", "try"} /\ writer = {} /\ readers = {}
  /\ writer' = {t} /\ call' = [call EXCEPT ![t] = "no"] /\ crowded' = crowded \ {t}
  /\ urged' = urged \ {t} /\ bypass' = [bypass EXCEPT ![t] = 0] /\ UNCHANGED readers

EnterShared(t) ==
  /\ call[t] \in {"lockS", "tryS"} /\ writer = {}
  /\ readers' = readers \cup {t} /\ call' = [call EXCEPT ![t] = "no"] /\ crowded' = crowded \ {t}
  /\ bypass' = [u \in Threads |-> IF u \in urged THEN bypass[u] + 1 ELSE bypass[u]]
  /\ \A u \in urged : bypass[u] < MaxBypass
  /\ UNCHANGED <<writer, urged>>

\* a non-blocking call fails only when somebody else uses the lock meanwhile
TryFail(t) ==
  /\ call[t] \in {"try", "tryS"} /\ t \in crowded
  /\ call' = [call EXCEPT ![t] = "no"] /\ crowded' = crowded \ {t}
  /\ UNCHANGED <<writer, readers, urged, bypass>>

Leave(t) == /\ t \in writer /\ writer' = {} /\ call' = [call EXCEPT ![t] = "rel"] /\ crowded' = crowded \cup Pending(t) /\ UNCHANGED <<readers, urged, bypass>>
LeaveShared(t) == /\ t \in readers /\ readers' = readers \ {t} /\ call' = [call EXCEPT ![t] = "rel"] /\ crowded' = crowded \cup Pending(t) /\ UNCHANGED <<writer, urged, bypass>>
Left(t) == call[t] = "rel" /\ call' = [call EXCEPT ![t] = "no"] /\ UNCHANGED <<writer, readers, crowded, urged, bypass>>

\* the thread waits for the exclusive section although it was scheduled
Urge(t) == call[t] = "lock" /\ urged' = urged \cup {t} /\ UNCHANGED <<writer, readers, call, crowded, bypass>>

RWNext == \E t \in Threads : \/ \E op \in {"lock", "lockS", "try", "tryS"} : Begin(t, op)
                             \/ Enter(t) \/ EnterShared(t) \/ TryFail(t) \/ Leave(t) \/ LeaveShared(t) \/ Left(t) \/ Urge(t)
RWSpec == RWInit /\ [][RWNext]_rwvars
Exclusion == Cardinality(writer) <= 1 /\ (writer # {} => readers = {})
=============================================================================
