----------------------------- MODULE Malformed -----------------------------
(* Frames as sequences of fields, the ways a frame may be damaged, and what  *)
(* a reader must answer (A06).                                               *)
(*                                                                           *)
(* A frame is a header (code, size, possibly the superblock size) followed   *)
(* by superblocks.  A superblock has a code, a declared length, `len` bytes  *)
(* that are present, the size `ds` of the content it encodes, its place in   *)
(* the original frame and what was done to its bytes.  `tail` bytes follow   *)
(* the last one.  The reader is also written as a machine that consumes the  *)
(* fields one after the other (Reader below); Outcome is what it may answer: *)
(*   "err"   an error                                                        *)
(*   "exact" the original content                                            *)
(*   "lax"   an error or the beginning of the original content               *)
(*   "any"   an error or at most the capacity, with any content              *)
EXTENDS Frame

HUGE == 16777215     \* declared length of a superblock that exceeds any frame

\* field 1: code of the header, size, superblock size of the header
\* p: "good" (original bytes), "bad" (altered bytes), "cut" or "long" (bytes removed or added, the declared length agreeing)
\* c: 0 (original code), 1 (another valid code), 2 (invalid code)
\* dl: declared length minus the length of the bytes that are present
Good(i, ds, len) == [i |-> i, c |-> 0, p |-> "good", dl |-> 0, ds |-> ds, len |-> len]
Intact(n, ss, shift, len) ==
    [hdr |-> HeaderLen(shift), code |-> shift, size |-> n, ss |-> ss, sbs |-> [i \in 1..Blocks(n, ss) |-> Good(i, SuperSize(n, ss, i), len)],
     tail |-> 0, form |-> shift = 255, odd |-> FALSE, raw |-> FALSE]    \* raw: all the superblocks are copies

\* superblock size the header of f announces to a reader of elements of bt bytes
Super(f, bt) == IF f.code = 255 THEN f.ss ELSE Shl(BaseSuper(bt), f.code)
ValidSuper(ss) == ss > 0 /\ ss < MAXBLOCK

RECURSIVE After(_, _)
After(f, i) == IF i > Len(f.sbs) THEN f.tail ELSE 4 + f.sbs[i].len + After(f, i + 1)   \* bytes from superblock i on

\* the superblocks from i on, with expected sizes
RECURSIVE Walk(_, _, _, _, _)
Walk(f, n, ss, i, res) ==
    IF i > Blocks(n, ss)
    THEN (IF res # "exact" THEN res ELSE IF i <= Len(f.sbs) \/ f.tail > 0 \/ f.odd THEN "lax" ELSE "exact")
    ELSE IF i > Len(f.sbs) THEN (IF f.tail < 4 THEN "err" ELSE "any")
    ELSE LET b == f.sbs[i] IN
         IF b.dl > 0 /\ b.dl > After(f, i + 1) THEN "err"                       \* longer than the frame
         ELSE IF b.c = 2 THEN "err"
         ELSE IF b.c = 1 \/ b.p = "bad" THEN (IF b.dl # 0 THEN "any" ELSE Walk(f, n, ss, i + 1, "any"))
         ELSE IF b.dl # 0 /\ b.p # "good" THEN "any"
         \* bytes meant for another size: a copy is refused, codes without redundancy may be read as other content
         ELSE IF b.ds # SuperSize(n, ss, i) THEN (IF b.dl # 0 THEN "any" ELSE IF f.raw /\ b.p = "good" THEN "err" ELSE Walk(f, n, ss, i + 1, "any"))
         ELSE IF b.dl # 0 \/ b.p # "good" THEN "err"
         ELSE Walk(f, n, ss, i + 1, IF b.i = i THEN res ELSE "any")

Outcome(f, obt, bt, cap) ==
    IF ~ValidBt(bt) \/ f.hdr < 8 \/ (f.code > 4 /\ f.code # 255) \/ f.size > cap THEN "err"
    ELSE IF f.size = 0 THEN "lax"
    ELSE IF f.form # (f.code = 255) THEN "any"                     \* the fields are shifted by four bytes
    ELSE IF f.code = 255 /\ f.hdr < 12 THEN "err"
    ELSE LET ss == Super(f, bt) IN
         IF ~ValidSuper(ss) THEN "err"
         ELSE IF bt # obt THEN "any"
         ELSE Walk(f, f.size, ss, 1, "exact")

\* stenos_get_info: "err", "ok" (with the announced sizes)
InfoOutcome(f, bt) == IF ~ValidBt(bt) \/ f.hdr < 8 \/ (f.code > 4 /\ f.code # 255) THEN "err"
                      ELSE IF f.code = 255 /\ (IF f.form THEN f.hdr < 12 ELSE After(f, 1) < 4) THEN "err"
                      ELSE IF f.form # (f.code = 255) THEN "any" ELSE "ok"

-----------------------------------------------------------------------------
\* Damages.  Each is a function on frames; `len` bytes of a superblock are nominal (the driver applies the
\* same operation to the real one), only their signs matter.
\* (a reader may be stricter about unusual superblock sizes)
SetCode(f, c)      == [f EXCEPT !.code = c, !.odd = TRUE]
SetSize(f, n)      == [f EXCEPT !.size = n]
SetSuper(f, s)     == [f EXCEPT !.ss = s, !.odd = TRUE]
SbCode(f, i, c)    == [f EXCEPT !.sbs[i].c = c]
SbLen(f, i, d)     == [f EXCEPT !.sbs[i].dl = IF d = HUGE THEN HUGE ELSE IF d < -@ - f.sbs[i].len THEN -f.sbs[i].len ELSE d]
SbBad(f, i)        == [f EXCEPT !.sbs[i].p = "bad"]
SbCut(f, i)        == [f EXCEPT !.sbs[i].p = IF @ \in {"good", "cut"} THEN "cut" ELSE "bad", !.sbs[i].len = IF @ > 1 THEN @ - 1 ELSE 0]
SbLong(f, i)       == [f EXCEPT !.sbs[i].p = IF @ \in {"good", "long"} THEN "long" ELSE "bad", !.sbs[i].len = @ + 3]
Drop(f, i)         == [f EXCEPT !.sbs = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Twice(f, i)        == [f EXCEPT !.sbs = SubSeq(@, 1, i) \o SubSeq(@, i, Len(@))]
Exchange(f, i, j)  == [f EXCEPT !.sbs = [@ EXCEPT ![i] = f.sbs[j], ![j] = f.sbs[i]]]
Trail(f, k)        == [f EXCEPT !.tail = @ + k]
\* truncation: inside the header, before superblock i, after k bytes of its header, or inside its bytes (only its last ones are missing)
CutHeader(f, k)    == [f EXCEPT !.hdr = k, !.sbs = <<>>, !.tail = 0]
CutBefore(f, i, k) == [f EXCEPT !.sbs = SubSeq(@, 1, i - 1), !.tail = k]
CutInside(f, i)    == [f EXCEPT !.sbs = [SubSeq(@, 1, i) EXCEPT ![i].len = @ - 1, ![i].dl = @ + 1, ![i].p = "cut"], !.tail = 0]

Cuts(f) == (IF f.hdr = HeaderLen(IF f.form THEN 255 ELSE 0) THEN {CutHeader(f, k) : k \in 0..f.hdr - 1} ELSE {})
           \cup {CutBefore(f, i, k) : i \in 1..Len(f.sbs), k \in 0..3} \cup {CutInside(f, i) : i \in {j \in 1..Len(f.sbs) : f.sbs[j].len > 0 /\ f.sbs[j].dl >= 0}}

-----------------------------------------------------------------------------
\* The reader as a machine: phase, next superblock, bytes it may still consume, bytes it has produced.
VARIABLES fr, cap, bt, phase, at, left, out, answer
rvars == <<fr, cap, bt, phase, at, left, out, answer>>
Length(g) == g.hdr + After(g, 1)
Done(a) == phase' = "done" /\ answer' = a /\ UNCHANGED <<fr, cap, bt, at, left, out>>
ReadHeader == /\ phase = "code"
              /\ IF left < 8 \/ (fr.code > 4 /\ fr.code # 255) \/ fr.size > cap THEN Done("err")
                 ELSE IF fr.size = 0 THEN Done("ok")
                 ELSE /\ left' = left - 8 /\ phase' = (IF fr.code = 255 THEN "super" ELSE "block") /\ UNCHANGED <<fr, cap, bt, at, out, answer>>
ReadSuper == /\ phase = "super"
             /\ IF left < 4 \/ ~ValidSuper(fr.ss) THEN Done("err")
                ELSE left' = left - 4 /\ phase' = "block" /\ UNCHANGED <<fr, cap, bt, at, out, answer>>
\* a superblock: the bytes produced are exactly those expected, or an error
ReadBlock == /\ phase = "block"
             /\ LET ss == Super(fr, bt) want == SuperSize(fr.size, ss, at) IN
                IF at > Blocks(fr.size, ss) THEN Done("ok")
                ELSE IF left < 4 \/ at > Len(fr.sbs) THEN Done("err")
                ELSE LET b == fr.sbs[at] IN
                     IF left - 4 < b.len + b.dl \/ b.c = 2 THEN Done("err")
                     ELSE IF b.c = 0 /\ b.p = "good" /\ b.dl = 0 /\ b.ds = want
                     THEN out' = out + want /\ left' = left - 4 - b.len /\ at' = at + 1 /\ UNCHANGED <<fr, cap, bt, phase, answer>>
                     ELSE Done("err") \/ (/\ b.c = 1 \/ b.p = "bad" \/ (b.ds # want /\ ~(fr.raw /\ b.p = "good"))
                                          /\ b.dl = 0
                                          /\ out' = out + want /\ left' = left - 4 - b.len /\ at' = at + 1 /\ UNCHANGED <<fr, cap, bt, phase, answer>>)
RNext == ReadHeader \/ ReadSuper \/ ReadBlock

InBounds == left >= 0 /\ out <= cap
Ends == <>(phase = "done")
\* what the machine answers is what Outcome announces
Agree == phase = "done" =>
    LET o == Outcome(fr, bt, bt, cap) IN
    CASE o = "err" -> answer = "err" [] o = "exact" -> answer = "ok" /\ out = fr.size [] OTHER -> TRUE
Complete == phase = "done" /\ answer = "ok" => out = fr.size
=============================================================================
