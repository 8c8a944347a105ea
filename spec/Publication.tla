---------------------------- MODULE Publication ----------------------------
(* Design of the publication of the content of a chunk (A12): users pin the chunk, read its pointer without a lock, and
   when it is not loaded load it under the lock of the vector; an evictor takes the chunk away when nobody pins it.
   The memory orders are those of the constants; the accesses to the content are ordered by HappensBefore only.
   NoRace: two accesses to the content, one of them a write, are ordered. *)
EXTENDS HappensBefore, TLC
CONSTANTS Users, Evictors, Rounds,
          LoadAcq, StoreRel,   \* orders of the pointer: read with acquire, written with release
          PinAcq, UnpinRel,    \* orders of the pin
          TakeAcq, GiveRel     \* orders of the exclusive lock of the evictor
Ts == 0..(Users + Evictors - 1)
IsUser(t) == t < Users
VARIABLES h, pc, left, loaded, pins, excl, mutex, lastw, lastr, race
vars == <<h, pc, left, loaded, pins, excl, mutex, lastw, lastr, race>>
\* synchronisation objects
Ptr == 1  Pin == 2  Mx == 3
Init == /\ h = Start(Ts, {Ptr, Pin, Mx}) /\ pc = [t \in Ts |-> "idle"] /\ left = [t \in Ts |-> Rounds]
        /\ loaded = FALSE /\ pins = 0 /\ excl = FALSE /\ mutex = -1
        /\ lastw = <<0, 0>> /\ lastr = [t \in Ts |-> 0] /\ race = FALSE
\* accesses to the content, in state s of the clocks
ReadRace(s, t) == lastw[1] # t /\ ~Before(s, lastw[1], lastw[2], t)
WriteRace(s, t) == ReadRace(s, t) \/ \E u \in Ts \ {t} : ~Before(s, u, lastr[u], t)
Read(t) == /\ lastr' = [lastr EXCEPT ![t] = h.vc[t][t]] /\ race' = (race \/ ReadRace(h, t)) /\ UNCHANGED lastw
Write(t) == /\ lastw' = <<t, h.vc[t][t]>> /\ race' = (race \/ WriteRace(h, t)) /\ UNCHANGED lastr
Mem == <<lastw, lastr, race>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]

PinIt(t) == /\ pc[t] = "idle" /\ IsUser(t) /\ left[t] > 0 /\ ~excl /\ pins' = pins + 1 /\ h' = Update(h, t, Pin, PinAcq, FALSE) /\ Go(t, "look")
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<loaded, excl, mutex, Mem>>
Look(t) == /\ pc[t] = "look" /\ h' = Load(h, t, Ptr, LoadAcq) /\ Go(t, IF loaded THEN "use" ELSE "lock") /\ UNCHANGED <<left, loaded, pins, excl, mutex, Mem>>
LockIt(t) == /\ pc[t] = "lock" /\ mutex = -1 /\ mutex' = t /\ h' = Lock(h, t, Mx) /\ Go(t, "again") /\ UNCHANGED <<left, loaded, pins, excl, Mem>>
Again(t) == /\ pc[t] = "again" /\ h' = Load(h, t, Ptr, LoadAcq) /\ Go(t, IF loaded THEN "unlock" ELSE "fill") /\ UNCHANGED <<left, loaded, pins, excl, mutex, Mem>>
Fill(t) == /\ pc[t] = "fill" /\ Write(t) /\ Go(t, "publish") /\ UNCHANGED <<h, left, loaded, pins, excl, mutex>>
Publish(t) == /\ pc[t] = "publish" /\ loaded' = TRUE /\ h' = Store(h, t, Ptr, StoreRel) /\ Go(t, "unlock") /\ UNCHANGED <<left, pins, excl, mutex, Mem>>
UnlockIt(t) == /\ pc[t] = "unlock" /\ mutex' = -1 /\ h' = Unlock(h, t, Mx) /\ Go(t, IF IsUser(t) THEN "use" ELSE "idle") /\ UNCHANGED <<left, loaded, pins, excl, Mem>>
Use(t) == /\ pc[t] = "use" /\ Read(t) /\ Go(t, "unpin") /\ UNCHANGED <<h, left, loaded, pins, excl, mutex>>
Unpin(t) == /\ pc[t] = "unpin" /\ pins' = pins - 1 /\ h' = Update(h, t, Pin, FALSE, UnpinRel) /\ Go(t, "idle") /\ UNCHANGED <<left, loaded, excl, mutex, Mem>>

Begin(t) == /\ pc[t] = "idle" /\ ~IsUser(t) /\ left[t] > 0 /\ mutex = -1 /\ mutex' = t /\ h' = Lock(h, t, Mx) /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "take") /\ UNCHANGED <<loaded, pins, excl, Mem>>
Take(t) == /\ pc[t] = "take"
           /\ IF pins = 0 /\ loaded THEN excl' = TRUE /\ h' = Update(h, t, Pin, TakeAcq, TRUE) /\ Go(t, "pack") ELSE UNCHANGED <<excl, h>> /\ Go(t, "unlock")
           /\ UNCHANGED <<left, loaded, pins, mutex, Mem>>
\* the content is read, packed, and its memory reused; or it is modified in place by a visitor
Pack(t) == /\ pc[t] = "pack" /\ Write(t) /\ (Go(t, "drop") \/ Go(t, "give")) /\ UNCHANGED <<h, left, loaded, pins, excl, mutex>>
Drop(t) == /\ pc[t] = "drop" /\ loaded' = FALSE /\ h' = Store(h, t, Ptr, StoreRel) /\ Go(t, "give") /\ UNCHANGED <<left, pins, excl, mutex, Mem>>
Give(t) == /\ pc[t] = "give" /\ excl' = FALSE /\ h' = Update(h, t, Pin, FALSE, GiveRel) /\ Go(t, "unlock") /\ UNCHANGED <<left, loaded, pins, mutex, Mem>>
Next == \/ \E t \in Ts : PinIt(t) \/ Look(t) \/ LockIt(t) \/ Again(t) \/ Fill(t) \/ Publish(t) \/ UnlockIt(t) \/ Use(t) \/ Unpin(t) \/ Begin(t) \/ Take(t) \/ Pack(t) \/ Drop(t) \/ Give(t)
        \/ (\A t \in Ts : pc[t] = "idle" /\ left[t] = 0) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
NoRace == ~race
Shape == pins >= 0 /\ (excl => pins = 0)
=============================================================================
