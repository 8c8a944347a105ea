----------------------------- MODULE BadVector -----------------------------
(* Deserialization of damaged data into a vector (B08): elements of bt bytes, *)
(* chunks of `chunk` bytes.  Full chunks are taken as they are (their bytes   *)
(* are decoded on the first access), the last partial one is decoded.        *)
(* Answers as in Malformed.tla; after "any" the elements are not read.       *)
EXTENDS Malformed

RECURSIVE VWalk(_, _, _, _, _)
VWalk(f, n, csz, i, res) ==
    IF i > Blocks(n, csz) THEN res
    ELSE IF i > Len(f.sbs) THEN (IF f.tail < 4 THEN "err" ELSE "any")
    ELSE LET b == f.sbs[i] part == SuperSize(n, csz, i) < csz IN
         IF b.dl > 0 /\ b.dl > After(f, i + 1) THEN "err"
         ELSE IF b.dl # 0 THEN "any"                                     \* the following fields are shifted
         ELSE IF ~part THEN VWalk(f, n, csz, i + 1, IF b.c = 0 /\ b.p = "good" /\ b.ds = csz /\ b.i = i THEN res ELSE "any")
         ELSE IF b.c = 2 THEN "err"
         ELSE IF b.c = 1 \/ b.p = "bad" THEN "any"
         ELSE IF b.ds # SuperSize(n, csz, i) THEN (IF f.raw /\ b.p = "good" THEN "err" ELSE "any")
         ELSE IF b.p # "good" THEN "err"
         ELSE IF b.i = i THEN res ELSE "any"

VOutcome(f, vbt, csz) ==
    IF f.hdr < 8 \/ (f.code > 4 /\ f.code # 255) THEN "err"
    ELSE IF f.code # 255 THEN (IF Shl(BaseSuper(vbt), f.code) # csz THEN "err" ELSE "any")
    ELSE IF f.hdr < 12 \/ f.ss # csz THEN "err"
    ELSE IF f.size = 0 THEN "exact"
    ELSE IF f.size % vbt # 0 THEN "err"
    ELSE VWalk(f, f.size, csz, 1, "exact")

-----------------------------------------------------------------------------
(* The vector that is read into: what may be done with it afterwards.        *)
(* st: "clean" (the elements are known), "murky" (some are not known)        *)
After1(o, st) == IF o = "exact" THEN "clean" ELSE "murky"
=============================================================================
