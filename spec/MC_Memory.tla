------------------------------ MODULE MC_Memory ------------------------------
(* The buffers themselves: made lazily by each worker, dropped when the superblock size changes; a failing call may do *)
(* any part of this.  The sizes of all the buffers stay within what Memory announces.                                   *)
EXTENDS Memory
CONSTANTS Sizes, Workers, Calls
VARIABLES buf,      \* context -> set of <<worker, kind, size>>
          cur, calls
mvars == <<mem, buf, cur, calls>>
Kinds == 1..3
RECURSIVE Total(_)
Total(B) == IF B = {} THEN 0 ELSE LET b == CHOOSE b \in B : TRUE IN b[3] + 4 + Total(B \ {b})
MInit == mem = [c \in MCtx |-> NoMem] /\ buf = [c \in MCtx |-> {}] /\ cur = [c \in MCtx |-> 0] /\ calls = 0
Kept(c, s) == IF cur[c] = s THEN buf[c] ELSE {}
New(B, s, w) == {b \in (1..w) \X Kinds \X {s} : ~\E x \in B : x[1] = b[1] /\ x[2] = b[2]}
Call(c, s, w) == \E N \in SUBSET New(Kept(c, s), s, w) :
                   buf' = [buf EXCEPT ![c] = Kept(c, s) \cup N] /\ cur' = [cur EXCEPT ![c] = s] /\ MemCall(c, s, w)
Fail(c, s, w) == /\ MemFail(c, s, w)
                 /\ \/ UNCHANGED <<buf, cur>>
                    \/ \E N \in SUBSET New(Kept(c, s), s, w) : buf' = [buf EXCEPT ![c] = Kept(c, s) \cup N] /\ cur' = [cur EXCEPT ![c] = s]
MNext == /\ calls < Calls /\ calls' = calls + 1
         /\ \E c \in MCtx, s \in Sizes, w \in 1..Workers : Call(c, s, w) \/ Fail(c, s, w)
MSpec == MInit /\ [][MNext]_mvars
Within == \A c \in MCtx : Total(buf[c]) <= mem[c].hi
OneSize == \A c \in MCtx : \A b \in buf[c] : b[3] = cur[c]
=============================================================================
