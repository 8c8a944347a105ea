------------------------------ MODULE Gen_Huge ------------------------------
(* Calls with contents around and beyond 2^29, 2^31 and 2^32 bytes, and their predicted outcome. *)
EXTENDS Huge, Json
CONSTANTS Focus      \* "any", "raw" (level 0), "timed"
VARIABLE k
Rnd(n) == RandomElement(0..(n - 1))
Pick(q) == q[1 + Rnd(Len(q))]
G32 == <<0, 0, 1>>
Sizes == <<G32, G32, G32, <<0, 32768>>, <<0, 49152>>, <<0, 32768, 1>> >>
TimedSizes == <<<<0, 8192>>, <<0, 8320>>, <<0, 16384>>, <<0, 16896>>, <<0, 32768>>, G32>>
Size0(x) == LET r == Rnd(140000) s == IF Focus = "timed" THEN Pick(TimedSizes) ELSE Pick(Sizes) IN
         IF Rnd(3) = 0 THEN Sub(s, Nat2(1 + (IF Rnd(3) = 0 THEN Rnd(40) ELSE r))) ELSE Add(s, Nat2(IF Rnd(3) = 0 THEN Rnd(40) ELSE r))
Bts == <<1, 2, 4, 8, 3, 12, 16, 255, 7, 1000, 20000>>
\* capacity for the decompression: smaller than the content
Small(n) == LET c == Pick(<<Sub(n, <<1>>), Sub(n, Nat2(1 + Rnd(65536))), IF Less(n, G32) THEN Sub(n, <<7>>) ELSE Sub(n, G32), SubSeq(n, 1, 2), Quo(n, 2), SubSeq(n, 1, 1)>>) IN
            IF Less(c, n) THEN Trim(c) ELSE Sub(n, <<1>>)
Big == 2147483647
Make(n, bt, level, thr, blk, timed) ==
    LET l == Layout([level |-> level, blk |-> blk], bt, Big) fs == Factors(bt, blk, IF l.shift = 255 THEN 0 ELSE l.shift) IN
    [op |-> "huge", n |-> n, bt |-> bt, level |-> level, threads |-> thr, v |-> blk, lim |-> IF timed THEN 1 + Rnd(28) ELSE 0,
     clk |-> <<Rnd(2), Pick(<<3, 6, 7, 9, 11, 13, 16>>), Rnd(30)>>, d |-> <<Rnd(6), Rnd(100)>>,
     ss |-> IF timed THEN -9 ELSE l.ss, shift |-> IF timed THEN -9 ELSE l.shift, cap |-> BoundH(n),
     hi |-> IF timed THEN BoundH(n) ELSE MaxLenH(n, l.shift, fs), ret |-> IF timed THEN <<>> ELSE BlocksH(n, fs), key |-> IF timed THEN <<>> ELSE HeaderH(n, l.shift, l.ss),
     cut |-> Small(n)]
Init == k = 0
\* also a small content each time: the same call through the arithmetic of Frame
Next == /\ \E n \in {Size0(k)}, bt \in {Pick(Bts)}, r \in {Rnd(5)} :
           LET level == IF Focus = "raw" THEN 0 ELSE Pick(<<1, 1, 2, 1, 3>>)
               blk == IF Focus # "timed" /\ r = 0 /\ bt < 300 THEN Pick(<<1, 3, 5>>) ELSE NOSHIFT IN
           PrintT("@@" \o ToJson(IF k = 0 THEN [op |-> "start"] ELSE Make(n, bt, level, Pick(<<1, 2, 3, 4>>), blk, Focus = "timed")))
        /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
