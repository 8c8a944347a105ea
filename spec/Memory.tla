------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Memory kept by the contexts of the C API: between two calls a context   *)
(* keeps buffers, of the superblock size of its last successful call only, *)
(* at most three for each worker it used with this size.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS MCtx
VARIABLE mem       \* context -> superblock size (0: none, -1: not known), workers, upper bound in bytes of the buffers
NoMem == [s |-> 0, t |-> 0, hi |-> 0]
Larger(a, b) == IF a > b THEN a ELSE b
Room(s) == 3 * (s + 256)                   \* the buffers of one worker
MemNew(c)  == mem' = [mem EXCEPT ![c] = NoMem]
\* a successful call with superblocks of s bytes by w workers
MemCall(c, s, w) == LET t == IF mem[c].s \in {s, -1} THEN Larger(mem[c].t, w) ELSE w IN
                    mem' = [mem EXCEPT ![c] = [s |-> s, t |-> t, hi |-> t * Room(s)]]
\* a call that failed may have kept the former buffers or not
MemFail(c, s, w) == LET t == Larger(mem[c].t, w) IN
                    mem' = [mem EXCEPT ![c] = [s |-> -1, t |-> t, hi |-> Larger(mem[c].hi, t * Room(s))]]
=============================================================================
