------------------------------ MODULE Parallel ------------------------------
(* Design model of the parallel calls of stenos/internal/stenos.cpp (A09):  *)
(* several client threads, each executing one call made of rounds; a round   *)
(* pushes one task per superblock to the shared pool and waits for the pool. *)
(* The pool is seen through its abstract behaviour (see Pool, TinyPool):     *)
(* wait returns at an instant where no task is queued or running.            *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Clients, Workers, Rounds, Width, MaxFail
\* Rounds[c]: number of rounds; Width: tasks of a round; MaxFail: failing pushes

VARIABLES st,      \* per client: "idle", "push", "wait", "check", "unwind", "ok", "error"
          round, idx, ran,   \* ran[c]: indexes of the tasks of this round that have run
          queue, busy, fails
vars == <<st, round, idx, ran, queue, busy, fails>>

Nothing == <<"none", 0, 0>>
Init == /\ st = [c \in Clients |-> "idle"] /\ round = [c \in Clients |-> 1] /\ idx = [c \in Clients |-> 1]
        /\ ran = [c \in Clients |-> {}] /\ queue = << >> /\ busy = [w \in Workers |-> Nothing] /\ fails = 0

Idle == queue = << >> /\ \A w \in Workers : busy[w] = Nothing
Active(c) == st[c] \in {"push", "wait", "unwind"}

Begin(c) == st[c] = "idle" /\ st' = [st EXCEPT ![c] = "push"] /\ UNCHANGED <<round, idx, ran, queue, busy, fails>>
Push(c) == /\ st[c] = "push" /\ idx[c] <= Width
           /\ queue' = Append(queue, <<c, round[c], idx[c]>>) /\ idx' = [idx EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<st, round, ran, busy, fails>>
PushFail(c) == /\ st[c] = "push" /\ idx[c] <= Width /\ fails < MaxFail
               /\ fails' = fails + 1 /\ st' = [st EXCEPT ![c] = "unwind"]
               /\ UNCHANGED <<round, idx, ran, queue, busy>>
AllPushed(c) == /\ st[c] = "push" /\ idx[c] > Width /\ st' = [st EXCEPT ![c] = "wait"]
                /\ UNCHANGED <<round, idx, ran, queue, busy, fails>>
WaitEnd(c) == /\ st[c] = "wait" /\ Idle /\ st' = [st EXCEPT ![c] = "check"]
              /\ UNCHANGED <<round, idx, ran, queue, busy, fails>>
Unwind(c) == /\ st[c] = "unwind" /\ Idle /\ st' = [st EXCEPT ![c] = "error"]
             /\ UNCHANGED <<round, idx, ran, queue, busy, fails>>
NextRound(c) == /\ st[c] = "check"
                /\ IF round[c] = Rounds[c] THEN st' = [st EXCEPT ![c] = "ok"] /\ UNCHANGED <<round, idx, ran>>
                   ELSE /\ st' = [st EXCEPT ![c] = "push"] /\ round' = [round EXCEPT ![c] = @ + 1]
                        /\ idx' = [idx EXCEPT ![c] = 1] /\ ran' = [ran EXCEPT ![c] = {}]
                /\ UNCHANGED <<queue, busy, fails>>
Take(w) == /\ busy[w] = Nothing /\ queue # << >> /\ busy' = [busy EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
           /\ UNCHANGED <<st, round, idx, ran, fails>>
Run(w) == /\ busy[w] # Nothing /\ busy' = [busy EXCEPT ![w] = Nothing]
          /\ ran' = [ran EXCEPT ![busy[w][1]] = @ \cup {busy[w][3]}]
          /\ UNCHANGED <<st, round, idx, queue, fails>>
Finished == (\A c \in Clients : st[c] \in {"ok", "error"}) /\ UNCHANGED vars

Client(c) == Begin(c) \/ Push(c) \/ PushFail(c) \/ AllPushed(c) \/ WaitEnd(c) \/ Unwind(c) \/ NextRound(c)
Next == Finished \/ (\E c \in Clients : Client(c)) \/ (\E w \in Workers : Take(w) \/ Run(w))
Spec == Init /\ [][Next]_vars /\ (\A c \in Clients : WF_vars(Client(c))) /\ (\A w \in Workers : WF_vars(Take(w) \/ Run(w)))

Pending == {queue[k] : k \in 1..Len(queue)} \cup ({busy[w] : w \in Workers} \ {Nothing})
\* no task outlives its call or its round: it uses the local variables of the call
NoDangling == \A t \in Pending : Active(t[1]) /\ round[t[1]] = t[2]
\* a buffer (client, index) has one user
Exclusive == /\ \A v, w \in Workers : v # w /\ busy[v] # Nothing => busy[v] # busy[w]
             /\ Cardinality(Pending) = Len(queue) + Cardinality({w \in Workers : busy[w] # Nothing})
\* the results of a round are used when all its tasks have run
Complete == \A c \in Clients : st[c] \in {"check", "ok"} => ran[c] = 1..Width
Terminates == <>(\A c \in Clients : st[c] \in {"ok", "error"})

\* ---- instances
R2 == [c \in Clients |-> 2]
=============================================================================
