------------------------------- MODULE Visits --------------------------------
(* Abstract specification of concurrent reads and bulk visits of a vector    *)
(* (B05).  A visit calls a functor on the elements of a range, in order, one  *)
(* at a time; each functor call is atomic on its element: it sees the latest  *)
(* value, nobody modifies the element until it ends, and nobody looks at it   *)
(* while a modifying functor runs.  A reference pins its element.             *)
EXTENDS Integers, FiniteSets, TLC
VARIABLES vals,   \* modified elements -> latest value; the others hold their index
          call,   \* thread -> call in progress
          open,   \* thread -> element under its functor
          held,   \* thread -> element pinned by a reference
          faults  \* memory may be refused
visvars == <<vals, call, open, held, faults>>

CFE == 2  FE == 3  CBACK == 4  BACK == 5  HOLD == 6  ITER == 7  RITER == 8  READ == 1
Get(f, i) == IF i \in DOMAIN f THEN f[i] ELSE i
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
VInit == vals = << >> /\ call = << >> /\ open = << >> /\ held = << >> /\ faults = FALSE

Refusals == faults' = TRUE /\ call = << >> /\ UNCHANGED <<vals, call, open, held>>
Begin(t, kind, lo, hi) ==
  /\ t \notin DOMAIN call
  /\ call' = Put(call, t, [kind |-> kind, next |-> IF kind \in {CBACK, BACK, RITER} THEN hi - 1 ELSE lo, lo |-> lo, hi |-> hi, n |-> 0, stopped |-> FALSE])
  /\ UNCHANGED <<vals, open, held, faults>>
Dir(c) == IF c.kind \in {CBACK, BACK, RITER} THEN -1 ELSE 1
InRange(c, i) == c.lo <= i /\ i < c.hi
Others(f, t, i) == \E u \in DOMAIN f \ {t} : f[u] = i
\* the functor is called on element i and sees v
Enter(t, i, v) ==
  /\ t \in DOMAIN call /\ t \notin DOMAIN open
  /\ LET c == call[t] IN c.kind \in {CFE, FE, CBACK, BACK} /\ ~c.stopped /\ i = c.next /\ InRange(c, i)
  /\ v = Get(vals, i)
  \* a modifying call has the element for itself
  /\ \A u \in DOMAIN open : open[u] = i => call[u].kind \in {CFE, CBACK} /\ call[t].kind \in {CFE, CBACK}
  /\ call[t].kind \in {FE, BACK} => ~Others(held, t, i)
  /\ open' = Put(open, t, i) /\ UNCHANGED <<vals, call, held, faults>>
Advance(t, go) == call' = [call EXCEPT ![t].next = @ + Dir(call[t]), ![t].n = IF go THEN @ + 1 ELSE @, ![t].stopped = ~go]
LeaveRead(t, i, v, go) ==
  /\ t \in DOMAIN open /\ open[t] = i /\ call[t].kind \in {CFE, CBACK} /\ v = Get(vals, i)
  /\ Advance(t, go) /\ open' = Del(open, t) /\ UNCHANGED <<vals, held, faults>>
LeaveWrite(t, i, old, new, go) ==
  /\ t \in DOMAIN open /\ open[t] = i /\ call[t].kind \in {FE, BACK} /\ old = Get(vals, i)
  /\ ~Others(open, t, i) /\ ~Others(held, t, i)
  /\ vals' = Put(vals, i, new) /\ Advance(t, go) /\ open' = Del(open, t) /\ UNCHANGED <<held, faults>>
\* a read through a reference or an iterator
Read(t, i, v) ==
  /\ t \in DOMAIN call /\ v = Get(vals, i)
  /\ \A u \in DOMAIN open : open[u] = i => call[u].kind \in {CFE, CBACK}
  /\ LET c == call[t] IN CASE c.kind = READ -> i = c.lo /\ c.n = 0
                           [] c.kind = HOLD -> i = c.hi
                           [] c.kind \in {ITER, RITER} -> i = c.next /\ InRange(c, i)
  /\ call' = [call EXCEPT ![t].n = @ + 1, ![t].next = @ + Dir(call[t])] /\ UNCHANGED <<vals, open, held, faults>>
Hold(t, i, v) ==
  /\ t \in DOMAIN call /\ call[t].kind = HOLD /\ t \notin DOMAIN held /\ i = call[t].lo /\ v = Get(vals, i)
  /\ \A u \in DOMAIN open : open[u] = i => call[u].kind \in {CFE, CBACK}
  /\ held' = Put(held, t, i) /\ UNCHANGED <<vals, call, open, faults>>
Unhold(t, i, v) == /\ t \in DOMAIN held /\ held[t] = i /\ v = Get(vals, i)
                   /\ held' = Del(held, t) /\ UNCHANGED <<vals, call, open, faults>>
\* a visit returns the number of calls that asked to go on, and covers its range unless asked to stop
End(t, r) ==
  /\ t \in DOMAIN call /\ t \notin DOMAIN open /\ t \notin DOMAIN held
  /\ LET c == call[t] IN
       CASE c.kind \in {CFE, FE, CBACK, BACK} -> r = c.n /\ (c.stopped \/ r = c.hi - c.lo)
         [] c.kind \in {READ, HOLD} -> c.n = 1
         [] c.kind \in {ITER, RITER} -> c.n = c.hi - c.lo
  /\ call' = Del(call, t) /\ UNCHANGED <<vals, open, held, faults>>
\* refused memory ends the call; what it did before remains
Throw(t) ==
  /\ faults /\ t \in DOMAIN call /\ t \notin DOMAIN open
  /\ call' = Del(call, t) /\ held' = Del(held, t) /\ UNCHANGED <<vals, open, faults>>
Quiet == call = << >> /\ open = << >> /\ held = << >> /\ UNCHANGED visvars
Final(i, v) == call = << >> /\ v = Get(vals, i) /\ UNCHANGED visvars
=============================================================================
