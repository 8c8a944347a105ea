--------------------------- MODULE Gen_Stenos ---------------------------
(* Random histories of the API model for conformance runs (tlc -simulate).   *)
(* Every generated call is printed as JSON with its predicted outcome.       *)
EXTENDS Stenos, Json

CONSTANTS Steps,      \* calls per history
          Focus,      \* "mix", "small", "caps", "params", "det", "thr", "time", "alloc", "acct"
          MaxN        \* usual maximal content size

VARIABLE k
gvars == <<ctx, frame, last, k>>

Pick(q) == q[RandomElement(1..Len(q))]
BtSmall == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 19, 20, 24, 31, 32, 33, 48, 64>>
BtBig   == <<65, 100, 128, 200, 255, 256, 257, 511, 512, 513, 1000, 4096, 20000>>
BtHuge  == <<32768, 40000, 65533, 65534>>
BtBad   == <<0, 65535, 65536, 100000>>

PickBt(r) == IF r <= 40 THEN Pick(<<1, 2, 4, 8, 3, 16, 12>>)
             ELSE IF r <= 78 THEN Pick(BtSmall)
             ELSE IF r <= 94 THEN Pick(BtBig)
             ELSE IF r <= 96 /\ Focus \notin {"small", "caps"} THEN Pick(BtHuge)
             ELSE IF r <= 98 THEN Pick(BtBad) ELSE RandomElement(1..1200)

Clip(n, r) == IF n < 0 THEN 0 ELSE IF n <= MaxN THEN n ELSE IF r = 1 /\ n < 20000000 /\ Focus = "mix" THEN n ELSE n % (MaxN + 1)

Fuzz(bt) == Pick(<<-bt, -1, 0, 0, 0, 1, bt, 2 * bt, 15 * bt, 16 * bt, 17 * bt, 33 * bt, 255 * bt>>)
           + RandomElement(0..1) * RandomElement({0, 1, 3, bt, bt + 1})

PickN(p, bt0, r) ==
    LET bt == IF ValidBt(bt0) THEN bt0 ELSE 4
        b  == bt * 256
        bs == BaseSuper(bt)
    IN Clip(CASE r <= 12 -> RandomElement(0..300)
              [] r <= 22 -> bt * RandomElement(0..60)
              [] r <= 62 -> b * RandomElement(0..6) + Fuzz(bt)
              [] r <= 66 -> b * RandomElement(1..40) + RandomElement(0..256) * bt
              [] r <= 82 -> bs * RandomElement(1..4) + Fuzz(bt)
              [] r <= 88 -> LET l == Layout(p, bt, 2000000000) IN
                            IF l.err # 0 THEN b + Fuzz(bt) ELSE l.ss * RandomElement(1..2) + Fuzz(bt)
              [] r <= 94 -> LET l == Layout(p, bt, 1) IN
                            IF l.err # 0 THEN b + Fuzz(bt) ELSE l.ss * RandomElement(1..12) + Fuzz(bt)
              [] OTHER   -> RandomElement(0..MaxN), RandomElement(1..8))

SmallN(bt0, r) ==
    LET bt == IF ValidBt(bt0) THEN bt0 ELSE 4 IN
    IF r <= 30 THEN RandomElement(0..400)
    ELSE Clip(bt * 256 * RandomElement(0..3) + Fuzz(bt), 2)

Data(r) == <<RandomElement(0..25), RandomElement(0..99)>>

PickCap(p, bt, n, r) ==
    IF Focus # "caps" /\ r <= 88 THEN -1
    ELSE IF r <= 30 THEN -1
    ELSE LET l == Layout(p, bt, n) IN
         IF l.err # 0 THEN Pick(<<0, 7, 8, 11, 12, 40>>)
         ELSE Max(0, CASE r % 6 = 0 -> RandomElement(0..16)
                       [] r % 6 = 1 -> l.shift - l.shift + MinLen(p, l, n) - 1
                       [] r % 6 = 2 -> MaxLen(l, n) - RandomElement(0..5)
                       [] r % 6 = 3 -> MaxLen(l, n)
                       [] OTHER -> RandomElement(0..MaxLen(l, n)))

Lvl(x) == Pick(<<-1, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 9, 10, 100>>)
Thr(x) == Pick(<<-1, 0, 1, 2, 2, 3, 4, 5, 8, 16, 64, 2, 3, IF RandomElement(1..3) = 1 THEN 134217728 ELSE 2, IF RandomElement(1..3) = 1 THEN 2147483647 ELSE 7>>)
Blk(x) == Pick(<<-1, -1, 0, 1, 2, 3, 5, 8, 10, 15, 16, 17, 1000>>)


\* Behaviours of the clock: <<0>> frozen; <<1, d>> advances by d at each reading; <<2, k, j>> jumps by j at the
\* k-th reading; <<3, s, d>> pseudo-random steps of mean d; <<4, k, e>> is e before the limit from the k-th reading
\* on; durations are indices of the driver's table.
Clk(x) == Pick(<< <<0, 0, 0, 0>>, <<1, RandomElement(1..24), 0>>, <<1, RandomElement(1..12), 0>>, <<2, RandomElement(0..40), RandomElement(8..30)>>,
                  <<2, RandomElement(0..400), RandomElement(8..30)>>, <<3, RandomElement(0..1000), RandomElement(1..20)>>,
                  <<3, RandomElement(0..1000), RandomElement(1..12)>>, <<4, RandomElement(0..60), RandomElement(0..6)>> >>)
Limits == 1..30
Lim(x) == IF RandomElement(1..4) = 1 THEN 0 ELSE RandomElement(Limits)
DoTimed(r) ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)}, bt \in {PickBt(RandomElement(1..97))}, d \in {Data(r)} :
       IF ~Alive(c) THEN New(c) ELSE IF ctx[c].lim = 0 THEN SetLimit(c, RandomElement(Limits))
       ELSE \E n \in {PickN(ctx[c], bt, RandomElement(1..100))}, clk \in {Clk(1)} :
            \E cap \in {IF RandomElement(1..8) = 1 THEN RandomElement(0..(n + 20)) ELSE -1} : CompressTimed(c, s, d, bt, n, cap, clk)
DoFault ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)}, bt \in {PickBt(RandomElement(1..94))}, d \in {Data(1)}, pe \in {RandomElement(0..2)}, ea \in {RandomElement(0..2)}, w \in {RandomElement(1..10)} :
       IF ~Alive(c) THEN FaultNew(c)
       ELSE IF w <= 4 /\ frame[s].n >= 0 THEN FaultDecompress(c, s, pe, ea)
       ELSE \E n \in {PickN(ctx[c], bt, RandomElement(1..100))} :
            IF Layout(ctx[c], bt, n).err # 0 THEN SetBlock(c, -1) ELSE FaultCompress(c, s, d, bt, n, pe, ea)
DoTimeSweep ==
    \E c \in {RandomElement(Ctx)}, bt \in {Pick(BtSmall)}, d \in {Data(1)} :
       IF ~Alive(c) THEN New(c) ELSE IF ctx[c].lim = 0 THEN SetLimit(c, RandomElement(Limits))
       ELSE \E n \in {bt * 256 * RandomElement(0..40) + RandomElement(0..300)} : TimeSweep(c, d, bt, n, <<2, 0, RandomElement(8..30)>>)

DoCompress(r) ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)}, bt \in {PickBt(RandomElement(1..100))}, d \in {Data(r)} :
       \E n \in {IF Focus \in {"small", "caps"} THEN SmallN(bt, RandomElement(1..100))
                 ELSE PickN(IF Alive(c) THEN ctx[c] ELSE Default, bt, RandomElement(1..100))} :
          \E cap \in {PickCap(IF Alive(c) THEN ctx[c] ELSE Default, bt, n, RandomElement(1..100))} :
             IF Alive(c) THEN (IF ctx[c].lim = 0 THEN Compress(c, s, d, bt, n, cap) ELSE SetLimit(c, 0))
             ELSE CompressOnce(Lvl(k), s, d, bt, n, cap)

\* the same content again, possibly with other parameters
DoAgain ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)}, s2 \in {RandomElement(Slot)} :
       IF frame[s2].n < 0 THEN DoCompress(1)
       ELSE IF Alive(c) THEN (IF ctx[c].lim = 0 THEN Compress(c, s, frame[s2].data, frame[s2].bt, frame[s2].n, -1) ELSE SetLimit(c, 0))
       ELSE CompressOnce(Lvl(k), s, frame[s2].data, frame[s2].bt, frame[s2].n, -1)

DoRel ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)}, s2 \in {RandomElement(Slot)} :
       IF s # s2 /\ ENABLED CompressRel(c, s, s2, 0)
       THEN CompressRel(c, s, s2, Pick(<<-40, -9, -8, -7, -6, -5, -4, -3, -2, -1, -1, -1, 0, 0, 0, 1, 2, 3, 4, 5, 8, 13, 40>>))
       ELSE DoCompress(1)

DoDecompress ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)}, dl \in {Pick(<<-1, -1, -7, -300, 0, 0, 0, 0, 0, 1, 2, 17, 64, 5000>>)} :
       IF frame[s].n < 0 \/ frame[s].n + dl < 0 THEN DoCompress(1)
       ELSE IF Alive(c) THEN Decompress(c, s, dl) ELSE DecompressOnce(s, dl)

DoShort ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)}, cut \in {Pick(<<1, 1, 2, 3, 4, 5, 6, 9, 17, 100, 1000, 100000>>)} :
       IF ENABLED DecompressShort(c, s, cut) THEN DecompressShort(c, s, cut) ELSE DoCompress(1)

DoBadType ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)} :
       IF ENABLED DecompressBadType(c, s, 0) THEN DecompressBadType(c, s, Pick(BtBad)) ELSE DoCompress(1)

DoInfo ==
    \E s \in {RandomElement(Slot)} :
       IF frame[s].n < 0 THEN DoCompress(1)
       ELSE IF frame[s].shift = ANYSS THEN (IF frame[s].n > 0 THEN Info(s, frame[s].bt, Pick(<<12, 13>>)) ELSE DoCompress(1))
       ELSE Info(s, IF RandomElement(1..4) = 1 THEN Pick(BtBad) ELSE frame[s].bt, Pick(<<0, 7, 8, 8, 11, 12, 12, 13>>))

DoSweep ==
    \E c \in {RandomElement(Ctx)}, bt \in {Pick(BtSmall)}, d \in {Data(1)} :
       IF ~Alive(c) THEN New(c)
       ELSE IF ctx[c].lim # 0 THEN SetLimit(c, 0)
       ELSE \E n \in {RandomElement(0..(IF RandomElement(1..5) = 1 THEN 700 ELSE 300))} :
            \E m \in {IF RandomElement(1..3) = 1 /\ bt < 5 THEN bt * 256 + RandomElement(0..300) ELSE n} :
            IF Layout(ctx[c], bt, m).err # 0 THEN SetBlock(c, -1) ELSE CapSweep(c, d, bt, m)

DoDecSweep ==
    \E c \in {RandomElement(Ctx)}, s \in {RandomElement(Slot)} :
       IF Alive(c) /\ frame[s].n >= 0 /\ frame[s].n <= 1500 THEN DecSweep(c, s) ELSE DoDecompress

DoParam ==
    \E c \in {RandomElement(Ctx)}, r \in {RandomElement(1..100)} :
       IF ~Alive(c) THEN New(c)
       ELSE IF r <= 45 THEN SetLevel(c, Lvl(k))
       ELSE IF r <= 75 THEN SetThreads(c, Thr(k))
       ELSE IF r <= 88 THEN SetBlock(c, Blk(k))
       ELSE IF Focus = "time" /\ r <= 93 THEN SetLimit(c, Lim(1))
       ELSE IF r <= 95 THEN Reset(c)
       ELSE Destroy(c)

\* first calls of a history: a context with chosen parameters
Weights == CASE Focus = "mix"    -> <<30, 5, 3, 33, 3, 1, 2, 0, 0, 0, 0, 0>>
             [] Focus = "small"  -> <<35, 5, 0, 35, 3, 1, 1, 0, 1, 0, 0, 0>>
             [] Focus = "caps"   -> <<25, 3, 15, 15, 2, 1, 1, 12, 12, 0, 0, 0>>
             [] Focus = "params" -> <<28, 5, 0, 15, 1, 3, 18, 0, 0, 0, 0, 0>>
             [] Focus = "time"   -> <<12, 8, 0, 18, 2, 0, 2, 0, 0, 40, 4, 0>>
             [] Focus = "alloc"  -> <<15, 5, 0, 12, 2, 0, 0, 0, 0, 0, 0, 46>>
             [] Focus = "acct"   -> <<30, 8, 0, 22, 3, 2, 0, 0, 0, 0, 0, 0>>
             [] Focus = "det"    -> <<15, 38, 8, 8, 4, 2, 1, 0, 0, 0, 0, 0>>
             [] OTHER            -> <<30, 10, 2, 35, 3, 1, 2, 0, 0, 0, 0, 0>>
RECURSIVE Acc(_, _)
Acc(q, i) == IF i = 0 THEN 0 ELSE q[i] + Acc(q, i - 1)

Act(r) ==
    LET w == Weights IN
    CASE r <= Acc(w, 1) -> DoCompress(r)
      [] r <= Acc(w, 2) -> DoAgain
      [] r <= Acc(w, 3) -> DoRel
      [] r <= Acc(w, 4) -> DoDecompress
      [] r <= Acc(w, 5) -> DoShort
      [] r <= Acc(w, 6) -> DoBadType
      [] r <= Acc(w, 7) -> DoInfo
      [] r <= Acc(w, 8) -> DoSweep
      [] r <= Acc(w, 9) -> DoDecSweep
      [] r <= Acc(w, 10) -> DoTimed(r)
      [] r <= Acc(w, 11) -> DoTimeSweep
      [] r <= Acc(w, 12) -> DoFault
      [] OTHER -> DoParam

GInit == Init /\ k = 0
Step == \E r \in {RandomElement(1..100)} :
          IF k % 3 = 1 /\ k < 9 /\ Focus # "params" THEN DoParam ELSE Act(r)
Fresh == /\ ctx' = [c \in Ctx |-> NoCtx]
         /\ frame' = [s \in Slot |-> NoFrame]
         /\ last' = [op |-> "start"]
GStep == /\ (IF k = 0 THEN Fresh ELSE Step)
         /\ k' = (k + 1) % (Steps + 1)
GNext == GStep /\ PrintT("@@" \o ToJson(last'))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
