------------------------------- MODULE Spinner -------------------------------
(* Design model of SharedSpinner (stenos/cvector.hpp): one atomic word with a *)
(* writer bit, a writer-is-waiting bit and a reader count; every atomic       *)
(* operation is a step.  Checked: it refines RWLock's exclusion and result    *)
(* rules, the word returns to 0, and a waiting writer enters although readers *)
(* come back forever.                                                         *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Writers, Readers, TryWriters, TryReaders, Forever
\* Forever: the readers that come back for ever; the others use the lock once

Threads == Writers \cup Readers \cup TryWriters \cup TryReaders
VARIABLES w, need, rd,  \* the word: writer bit, waiting bit, number of readers
          pc, expect,   \* expect: 0 or "need", value expected by the next exchange of lock()
          seen, writer, readers, call, crowded, urged, bypass
word == <<w, need, rd>>
vars == <<w, need, rd, pc, expect, seen, writer, readers, call, crowded, urged, bypass>>

RW == INSTANCE RWLock WITH MaxBypass <- 1000

Init == /\ w = FALSE /\ need = FALSE /\ rd = 0 /\ RW!RWInit
        /\ pc = [t \in Threads |-> "out"] /\ expect = [t \in Threads |-> 0] /\ seen = [t \in Threads |-> <<FALSE, FALSE, 0>>]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
OpOf(t) == IF t \in Writers THEN "lock" ELSE IF t \in Readers THEN "lockS" ELSE IF t \in TryWriters THEN "try" ELSE "tryS"

Start(t) == /\ pc[t] = "out" /\ RW!Begin(t, OpOf(t)) /\ Go(t, CASE OpOf(t) = "lock" -> "cas" [] OpOf(t) = "lockS" -> "load" [] OpOf(t) = "try" -> "tload" [] OTHER -> "load")
            /\ expect' = [expect EXCEPT ![t] = 0] /\ UNCHANGED <<w, need, rd, seen>>

\* lock(): exchange of the expected word against "writer"
Expected(t) == IF expect[t] = 0 THEN ~w /\ ~need /\ rd = 0 ELSE ~w /\ need /\ rd = 0
Cas(t) == /\ pc[t] = "cas"
          /\ IF Expected(t) THEN /\ w' = TRUE /\ need' = FALSE /\ RW!Enter(t) /\ Go(t, "in") /\ UNCHANGED <<rd, expect>>
             ELSE /\ Go(t, IF need THEN "cas" ELSE "mark") /\ expect' = [expect EXCEPT ![t] = 1]
                  /\ UNCHANGED <<w, need, rd, writer, readers, call, crowded, urged, bypass>>
          /\ UNCHANGED seen
Mark(t) == /\ pc[t] = "mark" /\ need' = TRUE /\ Go(t, "cas")
           /\ UNCHANGED <<w, rd, expect, seen, writer, readers, call, crowded, urged, bypass>>
Unlock(t) == /\ pc[t] = "in" /\ RW!Leave(t) /\ Go(t, "unl") /\ UNCHANGED <<w, need, rd, expect, seen>>
Unl(t) == /\ pc[t] = "unl" /\ w' = FALSE /\ need' = FALSE /\ Go(t, "end") /\ UNCHANGED <<rd, expect, seen, writer, readers, call, crowded, urged, bypass>>

\* lock_shared() and try_lock_shared(): load then exchange
Load(t) == /\ pc[t] = "load"
           /\ IF w \/ need THEN IF OpOf(t) = "tryS" THEN RW!TryFail(t) /\ Go(t, "done") ELSE UNCHANGED <<pc, writer, readers, call, crowded, urged, bypass>>
              ELSE Go(t, "scas") /\ UNCHANGED <<writer, readers, call, crowded, urged, bypass>>
           /\ seen' = [seen EXCEPT ![t] = <<w, need, rd>>] /\ UNCHANGED <<w, need, rd, expect>>
Scas(t) == /\ pc[t] = "scas"
           /\ IF seen[t] = <<w, need, rd>> THEN rd' = rd + 1 /\ RW!EnterShared(t) /\ Go(t, "ins")
              ELSE /\ IF OpOf(t) = "tryS" THEN RW!TryFail(t) /\ Go(t, "done") ELSE Go(t, "load") /\ UNCHANGED <<writer, readers, call, crowded, urged, bypass>>
                   /\ UNCHANGED rd
           /\ UNCHANGED <<w, need, expect, seen>>
UnlockS(t) == /\ pc[t] = "ins" /\ RW!LeaveShared(t) /\ Go(t, "unls") /\ UNCHANGED <<w, need, rd, expect, seen>>
Unls(t) == /\ pc[t] = "unls" /\ rd' = rd - 1 /\ Go(t, "end") /\ UNCHANGED <<w, need, expect, seen, writer, readers, call, crowded, urged, bypass>>

\* try_lock(): load then exchange of 0
TLoad(t) == /\ pc[t] = "tload"
            /\ IF w \/ need THEN RW!TryFail(t) /\ Go(t, "done") ELSE Go(t, "tcas") /\ UNCHANGED <<writer, readers, call, crowded, urged, bypass>>
            /\ UNCHANGED <<w, need, rd, expect, seen>>
TCas(t) == /\ pc[t] = "tcas"
           /\ IF ~w /\ ~need /\ rd = 0 THEN w' = TRUE /\ RW!Enter(t) /\ Go(t, "in") ELSE RW!TryFail(t) /\ Go(t, "done") /\ UNCHANGED w
           /\ UNCHANGED <<need, rd, expect, seen>>
End(t) == /\ pc[t] = "end" /\ RW!Left(t) /\ Go(t, IF t \in Forever THEN "out" ELSE "done") /\ UNCHANGED <<w, need, rd, expect, seen>>

Thread(t) == Start(t) \/ Cas(t) \/ Mark(t) \/ Unlock(t) \/ Unl(t) \/ Load(t) \/ Scas(t) \/ UnlockS(t) \/ Unls(t) \/ TLoad(t) \/ TCas(t) \/ End(t)
Done == (\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars
Next == Done \/ \E t \in Threads : Thread(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Thread(t))

\* the ghost counters bypass grow without bound when readers run for ever
Bounded == \A t \in Threads : bypass[t] = 0
Refines == RW!RWSpec
Exclusion == RW!Exclusion
EndsFree == (\A t \in Threads : pc[t] = "done") => ~w /\ ~need /\ rd = 0
WriterBit == (w => rd = 0) /\ (writer # {} => w) /\ Cardinality(readers) <= rd
WriterEnters == \A t \in Writers : (pc[t] \in {"cas", "mark"}) ~> (pc[t] = "in")
OnceEnds == \A t \in Threads \ Forever : <>(pc[t] = "done")
=============================================================================
