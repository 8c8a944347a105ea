------------------------------ MODULE Stenos ------------------------------
(***************************************************************************)
(* Sequential model of the stenos C API: contexts with their parameters,   *)
(* frames and their layout, and the outcome of every public call.          *)
(*                                                                         *)
(* The actions are the public calls.  The abstract content of a buffer is  *)
(* an identifier (data class, seed, size); what the model predicts for a   *)
(* call is recorded in the variable `last`, which the conformance driver   *)
(* compares with the real library.                                         *)
(***************************************************************************)
EXTENDS Frame

CONSTANTS Ctx,          \* context identifiers
          Slot          \* frame identifiers

-----------------------------------------------------------------------------
\* lim: time limit of a compression (0: none), an index of the driver's table of durations
Default == [level |-> 1, threads |-> 1, blk |-> NOSHIFT, lim |-> 0]
NoCtx   == [level |-> -1, threads |-> 0, blk |-> NOSHIFT, lim |-> 0]
NoFrame == [n |-> -1, bt |-> 0, ss |-> 0, shift |-> 0, data |-> <<>>, key |-> <<>>, lo |-> 0, hi |-> 0]

VARIABLES ctx,       \* context -> parameters (NoCtx: does not exist)
          frame,     \* slot -> frame descriptor
          last       \* the last call with its predicted outcome

vars == <<ctx, frame, last>>

Init == /\ ctx = [c \in Ctx |-> NoCtx]
        /\ frame = [s \in Slot |-> NoFrame]
        /\ last = [op |-> "init"]

Alive(c) == ctx[c] # NoCtx

New(c) == /\ ~Alive(c)
          /\ ctx' = [ctx EXCEPT ![c] = Default]
          /\ last' = [op |-> "new", c |-> c]
          /\ UNCHANGED frame

Destroy(c) == /\ Alive(c)
              /\ ctx' = [ctx EXCEPT ![c] = NoCtx]
              /\ last' = [op |-> "del", c |-> c]
              /\ UNCHANGED frame

Reset(c) == /\ Alive(c)
            /\ ctx' = [ctx EXCEPT ![c] = Default]
            /\ last' = [op |-> "reset", c |-> c]
            /\ UNCHANGED frame

SetLevel(c, v) ==
    /\ Alive(c)
    /\ ctx' = [ctx EXCEPT ![c].level = Min(9, Max(0, v))]
    /\ last' = [op |-> "level", c |-> c, v |-> v, ret |-> 0]
    /\ UNCHANGED frame

SetThreads(c, v) ==
    /\ Alive(c)
    /\ ctx' = [ctx EXCEPT ![c].threads = Max(1, v)]
    /\ last' = [op |-> "threads", c |-> c, v |-> v, ret |-> 0]
    /\ UNCHANGED frame

SetBlock(c, v) ==
    LET ok == v = NOSHIFT \/ (v >= 0 /\ v < 16) IN
    /\ Alive(c)
    /\ ctx' = IF ok THEN [ctx EXCEPT ![c].blk = v] ELSE ctx
    /\ last' = [op |-> "block", c |-> c, v |-> v, ret |-> IF ok THEN 0 ELSE EPARAM]
    /\ UNCHANGED frame

SetLimit(c, v) ==
    /\ Alive(c)
    /\ ctx' = [ctx EXCEPT ![c].lim = v]
    /\ last' = [op |-> "limit", c |-> c, v |-> v, ret |-> 0]
    /\ UNCHANGED frame

\* A compression with parameters p of content d (n bytes).  cap is the destination capacity:
\* "bound" (a sufficient one), or a number.  With less than a sufficient capacity the call may
\* fail (it must below the minimal length); if it succeeds the frame is as valid as any other.
MkFrame(p, l, d, bt, n) ==
    [n |-> n, bt |-> bt, ss |-> l.ss, shift |-> l.shift, data |-> d,
     key |-> <<d, bt, n, p.level, p.threads, p.blk>>, lo |-> MinLen(p, l, n), hi |-> MaxLen(l, n)]

Sufficient(p, l, n) == IF p.blk = NOSHIFT THEN Bound(n) ELSE MaxLen(l, n) + 64

CompressBy(who, p, s, d, bt, n, cap) ==
    LET l    == Layout(p, bt, n)
        want == IF l.err # 0 THEN "err" ELSE
                IF cap = -1 THEN "ok" ELSE
                IF p.level = 0 THEN (IF cap >= MaxLen(l, n) THEN "ok" ELSE "err") ELSE
                IF cap < MinLen(p, l, n) THEN "err" ELSE "any"
        f    == MkFrame(p, l, d, bt, n)
    IN /\ frame' = [frame EXCEPT ![s] = IF want = "ok" THEN f ELSE NoFrame]
       /\ last' = [op |-> "compress", c |-> who, s |-> s, d |-> d, bt |-> bt, n |-> n,
                   level |-> p.level, threads |-> p.threads,
                   cap |-> IF cap = -1 THEN (IF l.err # 0 THEN Bound(n) ELSE Sufficient(p, l, n)) ELSE cap,
                   full |-> cap = -1, want |-> want,
                   err |-> IF l.err # 0 THEN l.err ELSE EDST,
                   ss |-> l.ss, shift |-> l.shift, lo |-> f.lo, hi |-> f.hi, key |-> ToString(f.key)]
       /\ UNCHANGED ctx

\* A compression with a time limit, under any behaviour clk of the clock: the library chooses the superblock
\* size and the codes as it likes, the frame announces them (ss = -1: only known from the frame).  With a
\* sufficient capacity the call succeeds.  Level and custom superblock size have no influence.
ANYSS == -1
MinTimed(n) == IF n = 0 THEN 8 ELSE 13
CompressTimed(c, s, d, bt, n, cap, clk) ==
    LET p    == ctx[c]
        want == IF ~ValidBt(bt) THEN "err" ELSE IF cap = -1 THEN "ok" ELSE IF cap < MinTimed(n) THEN "err" ELSE "any"
        f    == [n |-> n, bt |-> bt, ss |-> ANYSS, shift |-> ANYSS, data |-> d, key |-> <<>>, lo |-> MinTimed(n), hi |-> Bound(n)]
    IN /\ Alive(c) /\ p.lim # 0
       /\ frame' = [frame EXCEPT ![s] = IF want = "ok" THEN f ELSE NoFrame]
       /\ last' = [op |-> "compress", c |-> c, s |-> s, d |-> d, bt |-> bt, n |-> n, level |-> p.level, threads |-> p.threads,
                   lim |-> p.lim, clk |-> clk, cap |-> IF cap = -1 THEN Bound(n) ELSE cap, full |-> cap = -1, want |-> want,
                   err |-> IF ValidBt(bt) THEN EDST ELSE EBT, ss |-> ANYSS, shift |-> ANYSS, lo |-> f.lo, hi |-> f.hi]
       /\ UNCHANGED ctx

\* The same compression with the limit exceeded at every single reading of the clock
TimeSweep(c, d, bt, n, clk) ==
    LET p == ctx[c] IN
    /\ Alive(c) /\ p.lim # 0 /\ ValidBt(bt)
    /\ last' = [op |-> "timesweep", c |-> c, d |-> d, bt |-> bt, n |-> n, level |-> p.level, threads |-> p.threads,
                lim |-> p.lim, clk |-> clk, ss |-> ANYSS, shift |-> ANYSS, lo |-> MinTimed(n), hi |-> Bound(n)]
    /\ UNCHANGED <<ctx, frame>>

Compress(c, s, d, bt, n, cap) == Alive(c) /\ ctx[c].lim = 0 /\ CompressBy(c, ctx[c], s, d, bt, n, cap)

\* One-shot compression: a fresh default context with a clamped level
CompressOnce(lvl, s, d, bt, n, cap) ==
    CompressBy("-", [Default EXCEPT !.level = Min(9, Max(0, lvl))], s, d, bt, n, cap)

\* Compression of the content of frame s2 with a capacity relative to its (implementation chosen)
\* length: any outcome, but a success is a valid frame and nothing is written beyond the capacity
CompressRel(c, s, s2, delta) ==
    LET f == frame[s2]
        p == ctx[c]
        l == Layout(p, f.bt, f.n)
    IN /\ Alive(c) /\ p.lim = 0 /\ f.n >= 0 /\ l.err = 0
       /\ frame' = [frame EXCEPT ![s] = NoFrame]
       /\ last' = [op |-> "rel", c |-> c, s |-> s, s2 |-> s2, d |-> f.data, bt |-> f.bt, n |-> f.n,
                   level |-> p.level, threads |-> p.threads, delta |-> delta,
                   ss |-> l.ss, shift |-> l.shift, lo |-> MinLen(p, l, f.n), hi |-> MaxLen(l, f.n)]
       /\ UNCHANGED ctx

\* The same compression with every capacity from 0 to a sufficient one
CapSweep(c, d, bt, n) ==
    LET p == ctx[c]
        l == Layout(p, bt, n)
    IN /\ Alive(c) /\ p.lim = 0 /\ l.err = 0
       /\ last' = [op |-> "capsweep", c |-> c, d |-> d, bt |-> bt, n |-> n, level |-> p.level,
                   threads |-> p.threads, full |-> Sufficient(p, l, n),
                   ss |-> l.ss, shift |-> l.shift, lo |-> MinLen(p, l, n), hi |-> MaxLen(l, n)]
       /\ UNCHANGED <<ctx, frame>>

\* Memory exhaustion: the call is made again and again, its k-th allocation failing (or all of them from the
\* k-th on), for every k until it makes less than k allocations.  Each time it fails or gives a right result,
\* and the context stays usable: the call made at last with enough memory succeeds.
FaultCompress(c, s, d, bt, n, persist, each) ==
    LET p == ctx[c] l == Layout(p, bt, n) f == MkFrame(p, l, d, bt, n) IN
    /\ Alive(c) /\ p.lim = 0 /\ l.err = 0
    /\ frame' = [frame EXCEPT ![s] = f]
    /\ last' = [op |-> "faultc", c |-> c, s |-> s, d |-> d, bt |-> bt, n |-> n, level |-> p.level, threads |-> p.threads,
                v |-> persist, delta |-> each, cap |-> Sufficient(p, l, n), full |-> TRUE, want |-> "ok", ss |-> l.ss, shift |-> l.shift, lo |-> f.lo, hi |-> f.hi, key |-> ToString(f.key)]
    /\ UNCHANGED ctx
FaultDecompress(c, s, persist, each) ==
    LET f == frame[s] IN
    /\ Alive(c) /\ f.n >= 0
    /\ last' = [op |-> "faultd", c |-> c, s |-> s, bt |-> f.bt, n |-> f.n, d |-> f.data, threads |-> ctx[c].threads, v |-> persist, delta |-> each]
    /\ UNCHANGED <<ctx, frame>>
\* A new context when memory is short: none, or a usable one with the default parameters
FaultNew(c) == /\ ~Alive(c) /\ ctx' = [ctx EXCEPT ![c] = Default] /\ last' = [op |-> "faultn", c |-> c] /\ UNCHANGED frame

\* Decompression with capacity n + delta
DecompressBy(who, thr, s, delta) ==
    LET f == frame[s] IN
    /\ f.n >= 0 /\ f.n + delta >= 0
    /\ last' = [op |-> "decompress", c |-> who, s |-> s, bt |-> f.bt, cap |-> f.n + delta, n |-> f.n,
                d |-> f.data, want |-> IF delta < 0 THEN "err" ELSE "ok", err |-> EDST, threads |-> thr]
    /\ UNCHANGED <<ctx, frame>>

Decompress(c, s, delta) == Alive(c) /\ DecompressBy(c, ctx[c].threads, s, delta)
DecompressOnce(s, delta) == DecompressBy("-", 1, s, delta)

\* The same decompression with every capacity from 0 to n + 3
DecSweep(c, s) ==
    LET f == frame[s] IN
    /\ Alive(c) /\ f.n >= 0
    /\ last' = [op |-> "decsweep", c |-> c, s |-> s, bt |-> f.bt, n |-> f.n, d |-> f.data, threads |-> ctx[c].threads]
    /\ UNCHANGED <<ctx, frame>>

\* A decompression that must fail: a strict prefix of a frame with content
DecompressShort(c, s, cut) ==
    LET f == frame[s] IN
    /\ Alive(c) /\ f.n > 0
    /\ last' = [op |-> "short", c |-> c, s |-> s, bt |-> f.bt, cut |-> cut, n |-> f.n, threads |-> ctx[c].threads]
    /\ UNCHANGED <<ctx, frame>>

\* A decompression with an element size which is never valid
DecompressBadType(c, s, bt) ==
    LET f == frame[s] IN
    /\ Alive(c) /\ f.n > 0 /\ ~ValidBt(bt)
    /\ last' = [op |-> "badtype", c |-> c, s |-> s, bt |-> bt, n |-> f.n, err |-> EBT]
    /\ UNCHANGED <<ctx, frame>>

Info(s, bt, len) ==
    LET f == frame[s]
        h == HeaderLen(f.shift)
        want == IF len < 8 THEN ESRC ELSE IF ~ValidBt(bt) THEN EBT ELSE IF len < h THEN ESRC ELSE h
    IN /\ f.n >= 0
       \* (the header length of a frame made under a time limit is not known, 12 bytes are enough)
       /\ f.shift # ANYSS \/ (len >= 12 /\ f.n > 0)
       /\ last' = [op |-> "info", s |-> s, bt |-> bt, len |-> len, ret |-> IF f.shift = ANYSS /\ ValidBt(bt) THEN 0 ELSE want, n |-> f.n,
                   ss |-> IF f.shift = ANYSS THEN ANYSS ELSE IF f.shift = 255 THEN f.ss ELSE IF ValidBt(bt) THEN Shl(BaseSuper(bt), f.shift) ELSE 0]
       /\ UNCHANGED <<ctx, frame>>

BoundOf(n) == /\ last' = [op |-> "bound", n |-> n, min |-> 12 + 4 + n]
              /\ UNCHANGED <<ctx, frame>>

-----------------------------------------------------------------------------
\* Properties of the design
TypeOK ==
    /\ \A c \in Ctx : Alive(c) => /\ ctx[c].level \in 0..9
                                  /\ ctx[c].threads >= 1
                                  /\ ctx[c].blk \in {NOSHIFT} \cup (0..15)
                                  /\ ctx[c].lim >= 0
    /\ \A s \in Slot : frame[s].n >= -1

\* The superblocks of a frame partition its content, each one fits 24 bits and holds whole blocks
FrameOK ==
    \A s \in Slot : LET f == frame[s] IN (f.n >= 0 /\ f.ss # ANYSS) =>
        /\ f.ss > 0 /\ f.ss < MAXBLOCK
        /\ f.ss % (f.bt * 256) = 0
        /\ f.shift \in (0..4) \cup {255}
        /\ f.n = 0 \/ ((Blocks(f.n, f.ss) - 1) * f.ss < f.n /\ f.n <= Blocks(f.n, f.ss) * f.ss)
        /\ f.n > 0 => SuperSize(f.n, f.ss, Blocks(f.n, f.ss)) \in 1..f.ss
        /\ f.lo <= f.hi

\* The bound covers every frame with a default layout
BoundOK ==
    \A s \in Slot : LET f == frame[s] IN (f.n >= 0 /\ f.shift # 255) => f.hi <= Bound(f.n)

\* A reader which only knows the header and the element size recovers the layout
SelfDescribing ==
    \A s \in Slot : LET f == frame[s] IN (f.n >= 0 /\ f.shift \notin {255, ANYSS}) => f.ss = Shl(BaseSuper(f.bt), f.shift)
=============================================================================
