-------------------------------- MODULE Pool --------------------------------
(* Abstract specification of the worker pool (property A10).                *)
(* Its actions are the observable events of stenos/internal/tiny_pool.h:    *)
(* begin and end of push(), wait() and of the destructor, begin and end of  *)
(* the execution of a task.  Executions recorded from the code are checked  *)
(* against it (TracePool), and the design model TinyPool refines it.        *)
EXTENDS Naturals, FiniteSets

CONSTANTS Tasks, Waits

VARIABLES life,      \* "none", "up", "ending" (destructor running), "gone"
          offered,   \* tasks given to push()
          accepted,  \* push() returned true
          refused,   \* push() returned false
          started, finished,
          snap       \* for each active wait: the tasks accepted before it began
poolvars == <<life, offered, accepted, refused, started, finished, snap>>

PoolTypeOK ==
  /\ life \in {"none", "up", "ending", "gone"}
  /\ offered \subseteq Tasks /\ accepted \subseteq offered /\ refused \subseteq offered
  /\ started \subseteq offered /\ finished \subseteq started
  /\ DOMAIN snap \subseteq Waits

PoolInit ==
  /\ life = "none" /\ offered = {} /\ accepted = {} /\ refused = {}
  /\ started = {} /\ finished = {} /\ snap = << >>

Create == life = "none" /\ life' = "up" /\ UNCHANGED <<offered, accepted, refused, started, finished, snap>>

BeginPush(t) ==
  /\ life = "up" /\ t \notin offered
  /\ offered' = offered \cup {t}
  /\ UNCHANGED <<life, accepted, refused, started, finished, snap>>

\* a task may only be refused when memory is short, and then it never runs
EndPush(t, ok, shortage) ==
  /\ t \in offered \ (accepted \cup refused)
  /\ ok \/ (shortage /\ t \notin started)
  /\ accepted' = IF ok THEN accepted \cup {t} ELSE accepted
  /\ refused' = IF ok THEN refused ELSE refused \cup {t}
  /\ UNCHANGED <<life, offered, started, finished, snap>>

\* at most once, never after the destructor returned
Start(t) ==
  /\ life \in {"up", "ending"}
  /\ t \in offered \ (started \cup refused)
  /\ started' = started \cup {t}
  /\ UNCHANGED <<life, offered, accepted, refused, finished, snap>>

Finish(t) ==
  /\ t \in started \ finished
  /\ finished' = finished \cup {t}
  /\ UNCHANGED <<life, offered, accepted, refused, started, snap>>

BeginWait(w) ==
  /\ life = "up" /\ w \notin DOMAIN snap
  /\ snap' = [x \in DOMAIN snap \cup {w} |-> IF x = w THEN accepted ELSE snap[x]]
  /\ UNCHANGED <<life, offered, accepted, refused, started, finished>>

\* wait() returns only when all the tasks accepted before it have finished
EndWait(w) ==
  /\ w \in DOMAIN snap
  /\ snap[w] \subseteq finished
  /\ snap' = [x \in DOMAIN snap \ {w} |-> snap[x]]
  /\ UNCHANGED <<life, offered, accepted, refused, started, finished>>

BeginDestroy ==
  /\ life = "up" /\ DOMAIN snap = {} /\ offered = accepted \cup refused
  /\ life' = "ending"
  /\ UNCHANGED <<offered, accepted, refused, started, finished, snap>>

\* the running tasks were waited for
EndDestroy ==
  /\ life = "ending" /\ started = finished
  /\ life' = "gone"
  /\ UNCHANGED <<offered, accepted, refused, started, finished, snap>>

PoolNext ==
  \/ Create \/ BeginDestroy \/ EndDestroy
  \/ \E t \in Tasks : BeginPush(t) \/ Start(t) \/ Finish(t) \/ \E ok, s \in BOOLEAN : EndPush(t, ok, s)
  \/ \E w \in Waits : BeginWait(w) \/ EndWait(w)

PoolSpec == PoolInit /\ [][PoolNext]_poolvars
=============================================================================
