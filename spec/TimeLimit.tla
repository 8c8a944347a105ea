----------------------------- MODULE TimeLimit -----------------------------
(***************************************************************************)
(* Design of the time-limited compression: workers take the superblocks in *)
(* turn, read a clock that an adversary advances by any amount between two *)
(* steps, and adapt their effort.  Once a worker finds that only a copy    *)
(* can meet the limit it raises a flag, and the superblocks started later  *)
(* are copied.  Calls with and without limit follow one another on the     *)
(* same context.                                                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Workers, Blocks,   \* superblocks 1..Blocks of each call
          Limit,             \* in ticks of the clock
          Calls              \* number of calls
VARIABLES now, start, flag,  \* clock, start of the call, "finish with copies"
          limited,           \* the running call has a limit
          next, work, eff,   \* next superblock; superblock and effort of each worker
          out, calls, phase
vars == <<now, start, flag, limited, next, work, eff, out, calls, phase>>
Free == 0
Efforts == -2..2             \* -2: end with raw blocks, -1: raw block, 0..2: more and more work per block
Elapsed == now - start

Init == /\ now = 0 /\ start = 0 /\ flag = FALSE /\ limited = FALSE /\ next = 1
        /\ work = [w \in Workers |-> Free] /\ eff = [w \in Workers |-> 2]
        /\ out = [b \in 1..Blocks |-> "none"] /\ calls = 0 /\ phase = "idle"
\* the clock stops being modelled once far beyond the limit
Advance == /\ now < start + Limit + 2 /\ now' \in (now + 1)..(start + Limit + 2)
           /\ UNCHANGED <<start, flag, limited, next, work, eff, out, calls, phase>>
Begin(l) == /\ phase = "idle" /\ calls < Calls
            /\ phase' = "run" /\ calls' = calls + 1 /\ limited' = l /\ flag' = FALSE
            /\ now' = 0 /\ start' = 0
            /\ next' = 1 /\ out' = [b \in 1..Blocks |-> "none"] /\ eff' = [w \in Workers |-> 2]
            /\ UNCHANGED work
Take(w) == /\ phase = "run" /\ work[w] = Free /\ next <= Blocks
           /\ next' = next + 1
           /\ IF flag THEN out' = [out EXCEPT ![next] = "copy"] /\ UNCHANGED <<work, eff>>
                      ELSE work' = [work EXCEPT ![w] = next] /\ eff' = [eff EXCEPT ![w] = 2] /\ UNCHANGED out
           /\ UNCHANGED <<now, start, flag, limited, calls, phase>>
\* a reading of the clock between two blocks
Read(w) == /\ work[w] # Free /\ limited /\ eff[w] # -2
           /\ \E e \in Efforts : /\ e # eff[w] \/ e = 2
                                 /\ e = -2 => 2 * Elapsed > Limit
                                 /\ e \in {-1, 0, 1} => Elapsed > 0
                                 /\ eff' = [eff EXCEPT ![w] = e]
                                 /\ flag' = (flag \/ e = -2)
           /\ UNCHANGED <<now, start, limited, next, work, out, calls, phase>>
\* the superblock ends as a coded one, or as a copy because its content does not compress or the time is over
Finish(w) == /\ work[w] # Free
             /\ \E r \in {"coded", "copy"} : out' = [out EXCEPT ![work[w]] = r]
             /\ work' = [work EXCEPT ![w] = Free]
             /\ flag' \in {flag, flag \/ (limited /\ Elapsed >= Limit)}
             /\ UNCHANGED <<now, start, limited, next, eff, calls, phase>>
End == /\ phase = "run" /\ next > Blocks /\ \A w \in Workers : work[w] = Free
       /\ phase' = "idle" /\ UNCHANGED <<now, start, flag, limited, next, work, eff, out, calls>>
Next == Advance \/ End \/ (\E l \in BOOLEAN : Begin(l)) \/ (\E w \in Workers : Take(w) \/ Read(w) \/ Finish(w))
Spec == Init /\ [][Next]_vars /\ WF_vars(End) /\ WF_vars(\E l \in BOOLEAN : Begin(l)) /\ \A w \in Workers : WF_vars(Take(w)) /\ WF_vars(Finish(w))
-----------------------------------------------------------------------------
TypeOK == /\ next \in 1..(Blocks + 1) /\ \A w \in Workers : work[w] \in 0..Blocks /\ eff[w] \in Efforts
\* each superblock is made once: by one worker, or done
Partition == \A b \in 1..Blocks : IF b >= next THEN out[b] = "none" /\ \A w \in Workers : work[w] # b
                                  ELSE (out[b] # "none") # (\E w \in Workers : work[w] = b)
Alone == \A v, w \in Workers : v # w => work[v] = Free \/ work[v] # work[w]
\* the frame is complete when the call returns
Complete == phase = "idle" /\ calls > 0 => \A b \in 1..Blocks : out[b] # "none"
\* a limit leaves nothing behind: calls without limit never take the short way
NoLegacy == phase = "run" /\ ~limited => ~flag /\ \A w \in Workers : eff[w] = 2
FlagCause == flag => limited /\ 2 * Elapsed > Limit
\* nothing the clock does keeps the call from returning
Returns == [](phase = "run" => <>(phase = "idle"))
=============================================================================
