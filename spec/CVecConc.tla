------------------------------ MODULE CVecConc ------------------------------
(* Design of the concurrent use of a compressed vector (B05): a lock per      *)
(* chunk (shared for reads, exclusive for modifying visits and for eviction), *)
(* one global lock for decompression, a list of contexts where chunks are     *)
(* decompressed.  An evicting thread never waits for a chunk: it skips those  *)
(* whose lock is taken, and makes a new context when all are.                 *)
(* Checked: it refines Visits (one element per chunk), a chunk in use stays   *)
(* in its context, memory refusals release every lock, and all calls end.     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Chunks,      \* number of chunks
          Script,      \* thread -> sequence of <<kind, first chunk, last chunk>>
          MaxRefusals, \* allocations that may be refused
          MaxCtx       \* bound on the identifiers of contexts
READ == 1  CFE == 2  FE == 3  CBACK == 4  BACK == 5
Threads == DOMAIN Script
Chunk == 1..Chunks
None == 0   \* no thread, no context, no chunk
VARIABLES rd, wr, need,          \* chunk locks: readers, writer, a writer waits
          dl,                    \* holder of the global lock
          loc, packed,           \* chunk -> context or None; compressed value
          list, own, cval, dirty,\* contexts in use, front first; their chunk, value, modified
          pc, pos, cur, ctx, idx, victim, refusals,
          call, open             \* as in Visits
locks == <<rd, wr, need, dl>>
cache == <<loc, packed, list, own, cval, dirty>>
ghost == <<call, open>>
vars == <<locks, cache, pc, pos, cur, ctx, idx, victim, refusals, ghost>>

Value(c) == IF loc[c] # None THEN cval[loc[c]] ELSE packed[c]
V == INSTANCE Visits WITH vals <- [c \in {c \in Chunk : Value(c) # c} |-> Value(c)], held <- << >>, faults <- MaxRefusals > 0

Init ==
  /\ rd = [c \in Chunk |-> {}] /\ wr = [c \in Chunk |-> None] /\ need = [c \in Chunk |-> FALSE] /\ dl = None
  \* the first two chunks are decompressed, the first one modified
  /\ list = <<1, 2>> /\ own = [k \in 1..MaxCtx |-> IF k <= 2 THEN k ELSE None]
  /\ cval = [k \in 1..MaxCtx |-> IF k <= 2 THEN k ELSE None] /\ dirty = [k \in 1..MaxCtx |-> k = 1]
  /\ loc = [c \in Chunk |-> IF c <= 2 THEN c ELSE None] /\ packed = [c \in Chunk |-> IF c = 1 THEN 0 ELSE c]
  /\ pc = [t \in Threads |-> "idle"] /\ pos = [t \in Threads |-> 1] /\ cur = [t \in Threads |-> None]
  /\ ctx = [t \in Threads |-> None] /\ idx = [t \in Threads |-> 0] /\ victim = [t \in Threads |-> None]
  /\ refusals = 0 /\ call = << >> /\ open = << >>

Kind(t) == Script[t][pos[t]][1]
Lo(t) == Script[t][pos[t]][2]
Hi(t) == Script[t][pos[t]][3]
Writes(t) == Kind(t) \in {FE, BACK}
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Taken(c) == wr[c] # None \/ need[c]
Free(c) == rd[c] = {} /\ wr[c] = None

Start(t) ==
  /\ pc[t] = "idle" /\ pos[t] <= Len(Script[t])
  /\ LET b == Kind(t) \in {CBACK, BACK} IN
       /\ cur' = [cur EXCEPT ![t] = IF b THEN Hi(t) ELSE Lo(t)]
       /\ call' = V!Put(call, t, [kind |-> Kind(t), next |-> IF b THEN Hi(t) ELSE Lo(t), lo |-> Lo(t), hi |-> Hi(t) + 1, n |-> 0, stopped |-> FALSE])
  /\ Goto(t, "acquire") /\ UNCHANGED <<locks, cache, pos, ctx, idx, victim, refusals, open>>
Acquire(t) ==
  /\ pc[t] = "acquire"
  /\ LET c == cur[t] IN
       \/ /\ ~Writes(t) /\ ~Taken(c) /\ rd' = [rd EXCEPT ![c] = @ \cup {t}] /\ Goto(t, "load") /\ UNCHANGED <<wr, need>>
       \/ /\ Writes(t) /\ Free(c) /\ wr' = [wr EXCEPT ![c] = t] /\ need' = [need EXCEPT ![c] = FALSE] /\ Goto(t, "load") /\ UNCHANGED rd
       \/ /\ Writes(t) /\ ~Free(c) /\ ~need[c] /\ need' = [need EXCEPT ![c] = TRUE] /\ UNCHANGED <<rd, wr, pc>>
  /\ UNCHANGED <<dl, cache, pos, cur, ctx, idx, victim, refusals, ghost>>
Load(t) ==
  /\ pc[t] = "load"
  /\ ctx' = [ctx EXCEPT ![t] = loc[cur[t]]] /\ Goto(t, IF loc[cur[t]] # None THEN "use" ELSE "dlock")
  /\ UNCHANGED <<locks, cache, pos, cur, idx, victim, refusals, ghost>>
DLock(t) ==
  /\ pc[t] = "dlock" /\ dl = None /\ dl' = t
  /\ ctx' = [ctx EXCEPT ![t] = loc[cur[t]]] /\ idx' = [idx EXCEPT ![t] = Len(list)]
  /\ Goto(t, IF loc[cur[t]] # None THEN "dunlock" ELSE IF Len(list) < 2 THEN "create" ELSE "scan")
  /\ UNCHANGED <<rd, wr, need, cache, pos, cur, victim, refusals, ghost>>
DUnlock(t) == /\ pc[t] = "dunlock" /\ dl' = None /\ Goto(t, "use")
              /\ UNCHANGED <<rd, wr, need, cache, pos, cur, ctx, idx, victim, refusals, ghost>>
Refuse(t) == /\ refusals < MaxRefusals /\ refusals' = refusals + 1
\* candidates are examined from the tail of the list; a chunk whose lock is taken is skipped
Scan(t, here, found, none) ==
  /\ pc[t] = here
  /\ IF idx[t] = 0 THEN Goto(t, none) /\ UNCHANGED <<wr, idx, victim>>
     ELSE LET k == list[idx[t]] o == own[k] IN
          IF o = None THEN victim' = [victim EXCEPT ![t] = k] /\ Goto(t, found) /\ UNCHANGED <<wr, idx>>
          ELSE IF Free(o) /\ ~need[o] THEN wr' = [wr EXCEPT ![o] = t] /\ victim' = [victim EXCEPT ![t] = k] /\ Goto(t, found) /\ UNCHANGED idx
          ELSE idx' = [idx EXCEPT ![t] = @ - 1] /\ UNCHANGED <<wr, victim, pc>>
  /\ UNCHANGED <<rd, need, dl, cache, pos, cur, ctx, refusals, ghost>>
FreeId == CHOOSE k \in 1..MaxCtx : \A i \in DOMAIN list : list[i] # k
Create(t) ==
  /\ pc[t] = "create"
  /\ \/ /\ Len(list) < MaxCtx
        /\ list' = <<FreeId>> \o list /\ own' = [own EXCEPT ![FreeId] = None] /\ dirty' = [dirty EXCEPT ![FreeId] = FALSE]
        /\ ctx' = [ctx EXCEPT ![t] = FreeId] /\ Goto(t, "fill") /\ UNCHANGED refusals
     \/ /\ Refuse(t) /\ Goto(t, "throw") /\ UNCHANGED <<list, own, dirty, ctx>>
  /\ UNCHANGED <<locks, loc, packed, cval, pos, cur, idx, victim, ghost>>
\* the victim's chunk is locked by t: its value is compressed if modified, in new memory if its size changes
Pack(t, here, next, fail) ==
  /\ pc[t] = here
  /\ LET k == victim[t] o == own[k] IN
       \/ /\ packed' = IF o # None /\ dirty[k] THEN [packed EXCEPT ![o] = cval[k]] ELSE packed
          /\ Goto(t, IF o # None /\ dirty[k] THEN next ELSE IF here = "pack" THEN "unlink" ELSE next) /\ UNCHANGED <<wr, refusals, victim>>
       \/ /\ o # None /\ dirty[k] /\ Refuse(t) /\ wr' = [wr EXCEPT ![o] = None] /\ Goto(t, fail)
          /\ victim' = [victim EXCEPT ![t] = IF here = "pack" THEN None ELSE ctx[t]] /\ UNCHANGED packed
  /\ UNCHANGED <<rd, need, dl, loc, list, own, cval, dirty, pos, cur, ctx, idx, ghost>>
\* a second context may be given back: its scan starts before the first one found
More(t) ==
  /\ pc[t] = "more"
  /\ \/ Goto(t, "unlink") /\ UNCHANGED <<idx, ctx>>
     \/ Goto(t, "scan2") /\ idx' = [idx EXCEPT ![t] = @ - 1] /\ ctx' = [ctx EXCEPT ![t] = victim[t]]
  /\ UNCHANGED <<locks, cache, pos, cur, victim, refusals, ghost>>
Without(k) == SelectSeq(list, LAMBDA x : x # k)
Erase2(t) ==   \* unlink, unlock and erase the second context
  /\ pc[t] = "erase2"
  /\ LET k == victim[t] o == own[k] IN
       /\ loc' = IF o # None THEN [loc EXCEPT ![o] = None] ELSE loc
       /\ wr' = IF o # None THEN [wr EXCEPT ![o] = None] ELSE wr
       /\ list' = Without(k) /\ own' = [own EXCEPT ![k] = None] /\ cval' = [cval EXCEPT ![k] = None] /\ dirty' = [dirty EXCEPT ![k] = FALSE]
  /\ victim' = [victim EXCEPT ![t] = ctx[t]] /\ Goto(t, "unlink")
  /\ UNCHANGED <<rd, need, dl, packed, pos, cur, ctx, idx, refusals, ghost>>
Back1(t) == /\ pc[t] = "none2" /\ victim' = [victim EXCEPT ![t] = ctx[t]] /\ Goto(t, "unlink")
            /\ UNCHANGED <<locks, cache, pos, cur, ctx, idx, refusals, ghost>>
Unlink(t) ==
  /\ pc[t] = "unlink"
  /\ LET k == victim[t] o == own[k] IN
       /\ loc' = IF o # None THEN [loc EXCEPT ![o] = None] ELSE loc
       /\ list' = <<k>> \o Without(k)
  /\ Goto(t, "unlock") /\ UNCHANGED <<locks, packed, own, cval, dirty, pos, cur, ctx, idx, victim, refusals, ghost>>
Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ LET k == victim[t] o == own[k] IN
       /\ wr' = IF o # None THEN [wr EXCEPT ![o] = None] ELSE wr
       /\ need' = IF o # None THEN [need EXCEPT ![o] = FALSE] ELSE need
       /\ own' = [own EXCEPT ![k] = None] /\ dirty' = [dirty EXCEPT ![k] = FALSE] /\ ctx' = [ctx EXCEPT ![t] = k]
  /\ victim' = [victim EXCEPT ![t] = None] /\ Goto(t, "fill")
  /\ UNCHANGED <<rd, dl, loc, packed, list, cval, pos, cur, idx, refusals, ghost>>
Fill(t) ==
  /\ pc[t] = "fill" /\ own' = [own EXCEPT ![ctx[t]] = cur[t]] /\ cval' = [cval EXCEPT ![ctx[t]] = packed[cur[t]]] /\ Goto(t, "link")
  /\ UNCHANGED <<locks, loc, packed, list, dirty, pos, cur, ctx, idx, victim, refusals, ghost>>
Link(t) ==
  /\ pc[t] = "link" /\ loc' = [loc EXCEPT ![cur[t]] = ctx[t]] /\ dirty' = [dirty EXCEPT ![ctx[t]] = FALSE] /\ Goto(t, "dunlock")
  /\ UNCHANGED <<locks, packed, list, own, cval, pos, cur, ctx, idx, victim, refusals, ghost>>
Leave(t) ==   \* release the lock of the current chunk
  /\ rd' = [rd EXCEPT ![cur[t]] = @ \ {t}]
  /\ IF Writes(t) THEN wr' = [wr EXCEPT ![cur[t]] = None] /\ need' = [need EXCEPT ![cur[t]] = FALSE] ELSE UNCHANGED <<wr, need>>
Throw(t) ==
  /\ pc[t] = "throw" /\ dl' = None /\ Leave(t) /\ call' = V!Del(call, t)
  /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ Goto(t, "idle") /\ ctx' = [ctx EXCEPT ![t] = None] /\ UNCHANGED <<cache, cur, idx, victim, refusals, open>>
\* the functor is called on the value in the context; a read is a single look
Use(t) ==
  /\ pc[t] = "use"
  /\ IF Kind(t) = READ
     THEN /\ call' = [call EXCEPT ![t].n = @ + 1, ![t].next = @ + 1] /\ Goto(t, "leave") /\ UNCHANGED <<open, dirty>>
     ELSE /\ open' = V!Put(open, t, cur[t]) /\ Goto(t, "body") /\ UNCHANGED call
          /\ dirty' = IF Writes(t) THEN [dirty EXCEPT ![ctx[t]] = TRUE] ELSE dirty
  /\ UNCHANGED <<locks, loc, packed, list, own, cval, pos, cur, ctx, idx, victim, refusals>>
Body(t) ==
  /\ pc[t] = "body"
  /\ cval' = IF Writes(t) THEN [cval EXCEPT ![ctx[t]] = @ + 10] ELSE cval
  /\ \E go \in {TRUE} \cup (IF Lo(t) < Hi(t) THEN {FALSE} ELSE {}) :
       call' = [call EXCEPT ![t].next = @ + V!Dir(call[t]), ![t].n = IF go THEN @ + 1 ELSE @, ![t].stopped = ~go]
  /\ open' = V!Del(open, t) /\ Goto(t, "leave")
  /\ UNCHANGED <<locks, loc, packed, list, own, dirty, pos, cur, ctx, idx, victim, refusals>>
Next1(t) ==
  /\ pc[t] = "leave" /\ Leave(t) /\ ctx' = [ctx EXCEPT ![t] = None]
  /\ IF Kind(t) # READ /\ ~call[t].stopped /\ V!InRange(call[t], call[t].next)
     THEN cur' = [cur EXCEPT ![t] = call[t].next] /\ Goto(t, "acquire") ELSE Goto(t, "end") /\ UNCHANGED cur
  /\ UNCHANGED <<dl, cache, pos, idx, victim, refusals, ghost>>
End(t) == /\ pc[t] = "end" /\ call' = V!Del(call, t) /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ Goto(t, "idle")
          /\ UNCHANGED <<locks, cache, cur, ctx, idx, victim, refusals, open>>
Step(t) == \/ Start(t) \/ Acquire(t) \/ Load(t) \/ DLock(t) \/ DUnlock(t) \/ Scan(t, "scan", "pack", "create") \/ Create(t)
           \/ Pack(t, "pack", "more", "throw") \/ More(t) \/ Scan(t, "scan2", "pack2", "none2") \/ Pack(t, "pack2", "erase2", "unlink") \/ Erase2(t) \/ Back1(t)
           \/ Unlink(t) \/ Unlock(t) \/ Fill(t) \/ Link(t) \/ Throw(t) \/ Use(t) \/ Body(t) \/ Next1(t) \/ End(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ pos[t] > Len(Script[t])
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
-----------------------------------------------------------------------------
Using(t) == pc[t] \in {"use", "body"}
\* a chunk in use stays in its context
Pinned == \A t \in Threads : Using(t) => loc[cur[t]] = ctx[t] /\ own[ctx[t]] = cur[t] /\ \E i \in DOMAIN list : list[i] = ctx[t]
\* a context belongs to one chunk, a chunk has one context
Bijective == /\ \A c \in Chunk : loc[c] # None => own[loc[c]] = c
             /\ \A i, j \in DOMAIN list : list[i] = list[j] => i = j
\* nothing stays locked; the contexts are bounded by the threads
Released == Finished => dl = None /\ \A c \in Chunk : Free(c) /\ ~need[c]
Bounded == Len(list) <= 2 + Cardinality(Threads)
Terminates == <>Finished
\* refinement of the abstract visits
Elements == Chunk
VEnter(t) == \E v \in {Value(c) : c \in Chunk} : V!Enter(t, cur[t], v)
VNext == \E t \in Threads :
  \/ \E k \in 1..5, lo, hi \in 1..(Chunks + 1) : V!Begin(t, k, lo, hi)
  \/ VEnter(t)
  \/ \E g \in BOOLEAN : V!LeaveRead(t, cur[t], Value(cur[t]), g)
  \/ \E g \in BOOLEAN : V!LeaveWrite(t, cur[t], Value(cur[t]), Value(cur[t]) + 10, g)
  \/ (pc[t] = "use" /\ Kind(t) = READ /\ V!Read(t, cur[t], Value(cur[t])))
  \/ V!Throw(t)
  \/ \E r \in 0..Chunks : V!End(t, r)
Refines == [][VNext]_<<V!visvars>>
=============================================================================
