----------------------------- MODULE RecordIter ------------------------------
(* Design of the iterator over the records of a stream (B12): it reads the    *)
(* stream as late as possible, when the record it designates is asked for or  *)
(* compared with the end.  at is the record it designates for the user: every *)
(* answer is a function of it, whatever has been read so far.                 *)
EXTENDS Integers

CONSTANTS MaxN,   \* largest number of complete records
          Slots   \* iterators, one of which is not moved from

VARIABLES n,      \* complete records of the stream
          rest,   \* an incomplete record follows
          pos,    \* records read from the stream
          cur,    \* the iterator in use
          it,     \* [Slots -> [open, has, val]]: attached to the stream, holds the record val
          at,     \* the designated record
          answer  \* <<operation, answer, expected>> of the last operation
vars == <<n, rest, pos, cur, it, at, answer>>

None == [open |-> FALSE, has |-> FALSE, val |-> 0]
Init == /\ n \in 0..MaxN /\ rest \in BOOLEAN /\ pos = 0 /\ cur \in Slots
        /\ it = [s \in Slots |-> IF s = cur THEN [open |-> TRUE, has |-> FALSE, val |-> 0] ELSE None]
        /\ at = 0 /\ answer = <<"start", 0, 0>>

\* reads the next record: <<iterator, records read>>; an incomplete record ends the stream like its absence
Read(i, p) == IF ~i.open \/ i.has THEN <<i, p>>
              ELSE IF p < n THEN <<[i EXCEPT !.has = TRUE, !.val = p], p + 1>>
              ELSE <<[i EXCEPT !.open = FALSE], p>>
Keep == UNCHANGED <<n, rest, cur>>
B(x) == IF x THEN 1 ELSE 0
Deref == /\ at < n
         /\ LET r == Read(it[cur], pos) IN /\ it' = [it EXCEPT ![cur] = r[1]] /\ pos' = r[2] /\ answer' = <<"deref", r[1].val, at>>
         /\ at' = at /\ Keep
\* the record that is skipped may not have been read yet
Advance == /\ at < n
           /\ LET r == Read(it[cur], pos)
                  s == Read([r[1] EXCEPT !.has = FALSE], r[2]) IN
              /\ it' = [it EXCEPT ![cur] = s[1]] /\ pos' = s[2] /\ answer' = <<"advance", 0, 0>>
           /\ at' = at + 1 /\ Keep
\* the other side is an iterator that was never attached
AtEnd == /\ LET r == Read(it[cur], pos) IN /\ it' = [it EXCEPT ![cur] = r[1]] /\ pos' = r[2] /\ answer' = <<"atend", B(~r[1].open), B(at = n)>>
         /\ at' = at /\ Keep
MoveTo(s) == /\ s # cur /\ it' = [it EXCEPT ![s] = it[cur], ![cur] = [it[cur] EXCEPT !.open = FALSE]] /\ cur' = s
             /\ answer' = <<"move", 0, 0>> /\ UNCHANGED <<n, rest, pos, at>>
Next == Deref \/ Advance \/ AtEnd \/ \E s \in Slots : MoveTo(s)
Spec == Init /\ [][Next]_vars

Answers == answer[2] = answer[3]
Coherent == /\ it[cur].has => it[cur].open /\ it[cur].val = at /\ pos = at + 1
            /\ it[cur].open /\ ~it[cur].has => pos = at
            /\ ~it[cur].open => at = n
            /\ \A s \in Slots \ {cur} : ~it[s].open
==============================================================================
