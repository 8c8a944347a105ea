------------------------------ MODULE TinyPool ------------------------------
(* Design model of stenos/internal/tiny_pool.h: a mutex, a condition for the *)
(* workers, a condition for the waiters, the counters, with spurious wakeups.*)
(* Checked: it refines Pool (the ghost variables of Pool are updated by the  *)
(* steps below) and, under fairness, everything terminates.                  *)
EXTENDS Pool, Sequences, Integers, TLC

CONSTANTS Workers, Clients, Script, MaxSpurious
\* Script[c]: sequence of <<"push", task>> and <<"wait", id>>

VARIABLES pc, mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious
vars == <<poolvars, pc, mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
Procs == Workers \cup Clients \cup {"main"}
None == "none"

Init ==
  /\ PoolInit
  /\ pc = [p \in Procs |-> IF p \in Workers THEN "off" ELSE IF p = "main" THEN "create" ELSE "next"]
  /\ mutex = None /\ queue = << >> /\ processing = Cardinality(Workers) /\ waiting = 0 /\ finish = FALSE
  /\ asleep = {} /\ wasleep = {} /\ cur = [w \in Workers |-> None] /\ pos = [c \in Clients |-> 1] /\ spurious = 0

Go(p, l) == pc' = [pc EXCEPT ![p] = l]

\* ---- main: constructor, then destructor when the clients are done
MCreate == /\ pc["main"] = "create" /\ Create
           /\ pc' = [p \in Procs |-> IF p \in Workers THEN "top" ELSE IF p = "main" THEN "destroy" ELSE pc[p]]
           /\ UNCHANGED <<mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
MDestroy == /\ pc["main"] = "destroy" /\ \A c \in Clients : pc[c] = "done"
            /\ BeginDestroy /\ Go("main", "fin")
            /\ UNCHANGED <<mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
MFinish == /\ pc["main"] = "fin" /\ mutex = None
           /\ finish' = TRUE /\ asleep' = {} /\ Go("main", "join")
           /\ UNCHANGED <<poolvars, mutex, queue, processing, waiting, wasleep, cur, pos, spurious>>
MJoin == /\ pc["main"] = "join" /\ \A w \in Workers : pc[w] = "done"
         /\ EndDestroy /\ Go("main", "done")
         /\ UNCHANGED <<mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>

\* ---- workers: do_work()
WTop(w) == /\ pc[w] = "top" /\ Go(w, IF finish THEN "done" ELSE "lock")
           /\ UNCHANGED <<poolvars, mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
WLock(w) == /\ pc[w] = "lock" /\ mutex = None
            /\ mutex' = w /\ processing' = processing - 1
            /\ wasleep' = IF waiting > 0 /\ processing - 1 = 0 /\ queue = << >> THEN {} ELSE wasleep
            /\ Go(w, "cond")
            /\ UNCHANGED <<poolvars, queue, waiting, finish, asleep, cur, pos, spurious>>
WCond(w) == /\ pc[w] = "cond" /\ mutex = w
            /\ IF queue # << >> \/ finish
               THEN Go(w, "go") /\ UNCHANGED <<mutex, asleep>>
               ELSE Go(w, "sleep") /\ mutex' = None /\ asleep' = asleep \cup {w}
            /\ UNCHANGED <<poolvars, queue, processing, waiting, finish, wasleep, cur, pos, spurious>>
WWake(w) == /\ pc[w] = "sleep" /\ w \notin asleep /\ mutex = None
            /\ mutex' = w /\ Go(w, "cond")
            /\ UNCHANGED <<poolvars, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
WGo(w) == /\ pc[w] = "go" /\ mutex = w /\ mutex' = None
          /\ IF finish THEN Go(w, "done") /\ UNCHANGED <<queue, processing, cur>>
             ELSE /\ cur' = [cur EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
                  /\ processing' = processing + 1 /\ Go(w, "start")
          /\ UNCHANGED <<poolvars, waiting, finish, asleep, wasleep, pos, spurious>>
WStart(w) == /\ pc[w] = "start" /\ Start(cur[w]) /\ Go(w, "run")
             /\ UNCHANGED <<mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
WRun(w) == /\ pc[w] = "run" /\ Finish(cur[w]) /\ Go(w, "top") /\ cur' = [cur EXCEPT ![w] = None]
           /\ UNCHANGED <<mutex, queue, processing, waiting, finish, asleep, wasleep, pos, spurious>>

\* ---- clients: push() and wait()
Op(c) == Script[c][pos[c]]
CNext(c) == /\ pc[c] = "next" /\ life = "up"
            /\ IF pos[c] > Len(Script[c]) THEN Go(c, "done") /\ UNCHANGED poolvars
               ELSE IF Op(c)[1] = "push" THEN Go(c, "insert") /\ BeginPush(Op(c)[2])
               ELSE Go(c, "wlock") /\ BeginWait(Op(c)[2])
            /\ UNCHANGED <<mutex, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
CInsert(c) == /\ pc[c] = "insert" /\ mutex = None
              /\ queue' = Append(queue, Op(c)[2]) /\ Go(c, "notify")
              /\ UNCHANGED <<poolvars, mutex, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
CNotify(c) == /\ pc[c] = "notify"
              /\ IF asleep = {} THEN UNCHANGED asleep ELSE \E w \in asleep : asleep' = asleep \ {w}
              /\ EndPush(Op(c)[2], TRUE, FALSE)
              /\ Go(c, "next") /\ pos' = [pos EXCEPT ![c] = @ + 1]
              /\ UNCHANGED <<mutex, queue, processing, waiting, finish, wasleep, cur, spurious>>
CWLock(c) == /\ pc[c] = "wlock" /\ mutex = None /\ mutex' = c /\ waiting' = waiting + 1 /\ Go(c, "wcheck")
             /\ UNCHANGED <<poolvars, queue, processing, finish, asleep, wasleep, cur, pos, spurious>>
CWCheck(c) == /\ pc[c] = "wcheck" /\ mutex = c /\ mutex' = None
              /\ IF processing = 0 /\ queue = << >>
                 THEN waiting' = waiting - 1 /\ Go(c, "wend") /\ UNCHANGED wasleep
                 ELSE wasleep' = wasleep \cup {c} /\ Go(c, "wsleep") /\ UNCHANGED waiting
              /\ UNCHANGED <<poolvars, queue, processing, finish, asleep, cur, pos, spurious>>
CWWake(c) == /\ pc[c] = "wsleep" /\ c \notin wasleep /\ mutex = None /\ mutex' = c /\ Go(c, "wcheck")
             /\ UNCHANGED <<poolvars, queue, processing, waiting, finish, asleep, wasleep, cur, pos, spurious>>
CWEnd(c) == /\ pc[c] = "wend" /\ EndWait(Op(c)[2]) /\ Go(c, "next") /\ pos' = [pos EXCEPT ![c] = @ + 1]
            /\ UNCHANGED <<mutex, queue, processing, waiting, finish, asleep, wasleep, cur, spurious>>

Spurious == /\ spurious < MaxSpurious /\ spurious' = spurious + 1
            /\ \/ \E w \in asleep : asleep' = asleep \ {w} /\ UNCHANGED wasleep
               \/ \E c \in wasleep : wasleep' = wasleep \ {c} /\ UNCHANGED asleep
            /\ UNCHANGED <<poolvars, pc, mutex, queue, processing, waiting, finish, cur, pos>>

Done == pc["main"] = "done" /\ UNCHANGED vars

Worker(w) == WTop(w) \/ WLock(w) \/ WCond(w) \/ WWake(w) \/ WGo(w) \/ WStart(w) \/ WRun(w)
Client(c) == CNext(c) \/ CInsert(c) \/ CNotify(c) \/ CWLock(c) \/ CWCheck(c) \/ CWWake(c) \/ CWEnd(c)
Main == MCreate \/ MDestroy \/ MFinish \/ MJoin

Next == Main \/ Spurious \/ Done \/ (\E w \in Workers : Worker(w)) \/ (\E c \in Clients : Client(c))
Spec == Init /\ [][Next]_vars /\ SF_vars(Main) /\ (\A w \in Workers : SF_vars(Worker(w))) /\ (\A c \in Clients : SF_vars(Client(c)))

\* ---- properties
Refines == PoolSpec
Terminates == <>(life = "gone")
\* the wait condition means what it should: nothing accepted is outstanding
WaitMeans == \A c \in Clients : pc[c] = "wend" => snap[Op(c)[2]] \subseteq finished
Balance == processing >= 0 /\ processing <= Cardinality(Workers)

\* ---- instances
C1 == {"c1"}
C2 == {"c1", "c2"}
ScriptA == [c \in C1 |-> << <<"push", 1>>, <<"push", 2>>, <<"wait", 1>>, <<"push", 3>> >>]
ScriptB == [c \in C2 |-> IF c = "c1" THEN << <<"push", 1>>, <<"wait", 1>> >> ELSE << <<"push", 2>>, <<"wait", 2>>, <<"push", 3>> >>]
ScriptC == [c \in C2 |-> IF c = "c1" THEN << <<"push", 1>>, <<"wait", 1>>, <<"wait", 3>> >> ELSE << <<"push", 2>>, <<"push", 3>>, <<"wait", 2>> >>]
=============================================================================
