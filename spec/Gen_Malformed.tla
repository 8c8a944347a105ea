--------------------------- MODULE Gen_Malformed ---------------------------
(* Random damages of random frames, with the answers a reader may give.     *)
EXTENDS Malformed, Json
CONSTANTS Steps, MaxN, Focus    \* Focus: "mix", "small", "raw"

VARIABLES base,   \* parameters of the intact frame
          k, last
gvars == <<fr, cap, bt, phase, at, left, out, answer, base, k, last>>
Pick(q) == q[RandomElement(1..Len(q))]
NOM == 10         \* nominal length of the bytes of a superblock

Bts == <<1, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 8, 9, 10, 12, 15, 16, 16, 17, 20, 24, 31, 32, 33, 48, 64, 100, 128, 255, 256, 257, 1000>>
Params(x) == [bt |-> Pick(Bts), level |-> Pick(<<0, 1, 1, 1, 2, 2, 3, 4, 5, 7, 9>>), blk |-> Pick(<<-1, 0, 0, 0, 0, 1, 1, 2, 3>>), d |-> <<RandomElement(0..25), RandomElement(0..99)>>, threads |-> Pick(<<1, 1, 2, 3>>)]
Size(p, r) == LET b == p.bt * 256 ss == IF p.blk = -1 THEN BaseSuper(p.bt) ELSE Shl(b, p.blk)
                  n == CASE r <= 15 -> RandomElement(0..400)
                         [] r <= 55 -> ss * RandomElement(0..7) + Pick(<<0, 0, 1, p.bt, 16 * p.bt, b \div 2, b - 1>>)
                         [] r <= 75 -> b * RandomElement(0..12) + RandomElement(0..b)
                         [] OTHER   -> RandomElement(0..MaxN) IN
              LET top == Min(MaxN, 40 * ss) IN IF n > top THEN n % (top + 1) ELSE n   \* at most 40 superblocks
New == \E p \in {Params(k)}, r \in {RandomElement(1..100)} : \E n \in {Size(p, r)} :
         LET l == Layout([level |-> p.level, threads |-> p.threads, blk |-> p.blk], p.bt, n) IN
         /\ base' = [bt |-> p.bt, n |-> n, ss |-> l.ss, shift |-> l.shift, raw |-> p.level = 0]
         /\ fr' = [Intact(n, l.ss, l.shift, NOM) EXCEPT !.raw = p.level = 0]
         /\ last' = [op |-> "base", bt |-> p.bt, n |-> n, level |-> p.level, threads |-> p.threads, blk |-> p.blk, d |-> p.d, ss |-> l.ss, shift |-> l.shift]

Whole(g) == g.hdr = HeaderLen(IF g.form THEN 255 ELSE 0)
Home == [Intact(base.n, base.ss, base.shift, NOM) EXCEPT !.raw = base.raw]
Restore == fr' = Home /\ last' = [op |-> "restore"] /\ UNCHANGED base
Edit(g, rec) == fr' = g /\ last' = rec /\ UNCHANGED base
N == Len(fr.sbs)
Damage(r) == \E i \in {RandomElement(1..(IF N = 0 THEN 1 ELSE N))}, j \in {RandomElement(1..(IF N = 0 THEN 1 ELSE N))} :
    IF ~Whole(fr) THEN Restore
    ELSE IF r <= 7 THEN \E c \in {Pick(<<0, 1, 2, 3, 4, 5, 6, 127, 128, 254, 255>>)} : Edit(SetCode(fr, c), [op |-> "code", v |-> c])
    ELSE IF r <= 22 THEN \E n \in {Max(0, CASE r <= 9 -> base.n + Pick(<<1, -1, base.bt, -base.bt>>) [] r <= 14 -> base.n + RandomElement(-4..4) * base.ss [] r <= 16 -> 2 * base.n [] r <= 18 -> RandomElement(0..1) * base.ss [] r <= 20 -> RandomElement(0..base.n + 2) [] OTHER -> Pick(<<0, 2000000000, 2147483647>>))} :
                               Edit(SetSize(fr, n), [op |-> "size", v |-> n])
    ELSE IF r <= 32 /\ fr.code = 255 /\ fr.form THEN \E s \in {Max(0, CASE r <= 26 -> Pick(<<0, 1, base.bt, base.ss - 1, base.ss + 1, 2 * base.ss, base.ss \div 2, 16777215, 16777214, 2000000000>>) [] r <= 29 -> base.n + Pick(<<-1, 0, 1>>) [] OTHER -> RandomElement(1..2 * base.ss))} :
                               Edit(SetSuper(fr, s), [op |-> "super", v |-> s])
    ELSE IF N = 0 THEN Edit(Trail(fr, 3), [op |-> "trail", v |-> 3])
    ELSE IF r <= 38 THEN \E c \in {Pick(<<1, 1, 2>>)} : Edit(SbCode(fr, i, c), [op |-> "sbcode", i |-> i, v |-> c, r |-> RandomElement(1..250)])
    ELSE IF r <= 48 THEN \E d \in {Pick(<<-1, -1, -2, -NOM, 1, 1, 2, 3, HUGE>>)} : Edit(SbLen(fr, i, d), [op |-> "sblen", i |-> i, v |-> IF d = -NOM THEN -HUGE ELSE d])
    ELSE IF r <= 68 THEN Edit(SbBad(fr, i), [op |-> "bad", i |-> i, r |-> RandomElement(1..1000000000), v |-> RandomElement(0..9)])
    ELSE IF r <= 72 THEN Edit(SbCut(fr, i), [op |-> "cut", i |-> i, r |-> RandomElement(1..1000)])
    ELSE IF r <= 76 THEN Edit(SbLong(fr, i), [op |-> "long", i |-> i, r |-> RandomElement(1..1000)])
    ELSE IF r <= 79 THEN Edit(Drop(fr, i), [op |-> "drop", i |-> i])
    ELSE IF r <= 81 THEN Edit(Twice(fr, i), [op |-> "twice", i |-> i])
    ELSE IF r <= 84 THEN Edit(Exchange(fr, i, j), [op |-> "exchange", i |-> i, j |-> j])
    ELSE IF r <= 86 THEN \E t \in {Pick(<<1, 3, 4, 20>>)} : Edit(Trail(fr, t), [op |-> "trail", v |-> t])
    ELSE IF r <= 91 THEN \E q \in {RandomElement(0..fr.hdr - 1)} : Edit(CutHeader(fr, q), [op |-> "cuthdr", v |-> q])
    ELSE IF r <= 95 \/ fr.sbs[i].dl < 0 \/ fr.sbs[i].len = 0 THEN \E q \in {RandomElement(0..3)} : Edit(CutBefore(fr, i, q), [op |-> "cutsb", i |-> i, v |-> q])
    ELSE Edit(CutInside(fr, i), [op |-> "cutin", i |-> i, r |-> RandomElement(1..1000)])

\* a reading: obt the right element size
Read == \E b \in {IF RandomElement(1..12) = 1 THEN Pick(<<0, 1, 2, 3, 4, 8, 16, 100, 65535, 65536>>) ELSE base.bt}, th \in {Pick(<<0, 1, 1, 2, 3, 8>>)},
           c \in {Max(0, Pick(<<Min(fr.size, 4000000), Min(fr.size, 4000000), base.n, base.n, base.n + 100, fr.size - 1, base.n + 2 * base.ss, 0>>))} :
        LET c1 == IF c > 3000000 THEN base.n + 4096 ELSE c IN
        /\ last' = [op |-> "read", bt |-> b, threads |-> th, cap |-> c1, want |-> Outcome(fr, base.bt, b, c1), n |-> fr.size]
        /\ UNCHANGED <<fr, base>>
Info == \E b \in {IF RandomElement(1..4) = 1 THEN Pick(<<0, 1, 4, 65534, 65535, 100000>>) ELSE base.bt} :
        /\ last' = [op |-> "info", bt |-> b, want |-> InfoOutcome(fr, b), n |-> fr.size, ss |-> IF ValidBt(b) /\ fr.code \in {0, 1, 2, 3, 4, 255} THEN Super(fr, b) ELSE 0, cap |-> IF fr.code = 255 THEN 12 ELSE 8]
        /\ UNCHANGED <<fr, base>>
\* every strict prefix, and many random alterations of the bytes
Prefixes == last' = [op |-> "prefixes", bt |-> base.bt, threads |-> Pick(<<0, 1, 3>>), n |-> fr.size] /\ UNCHANGED <<fr, base>>
Storm == last' = [op |-> "storm", bt |-> base.bt, threads |-> Pick(<<0, 1, 1, 1, 3>>), cap |-> base.n + Pick(<<0, 0, 17>>), v |-> 40, r |-> RandomElement(1..1000000000)] /\ UNCHANGED <<fr, base>>

Sane == fr = Home
GInit == /\ fr = Intact(0, 1024, 0, NOM) /\ base = [bt |-> 4, n |-> 0, ss |-> 1024, shift |-> 0, raw |-> FALSE] /\ k = 0 /\ last = [op |-> "start"]
         /\ cap = 0 /\ bt = 0 /\ phase = "gen" /\ at = 0 /\ left = 0 /\ out = 0 /\ answer = "none"
Step == \E r \in {RandomElement(1..100)} :
        IF k % 20 = 1 THEN New
        ELSE IF r <= 42 THEN Damage(RandomElement(1..100))
        ELSE IF r <= 82 THEN Read
        ELSE IF r <= 86 THEN Info
        ELSE IF r <= 93 THEN Restore
        ELSE IF Sane THEN (IF r <= 95 /\ base.n > 0 THEN Prefixes ELSE Storm) ELSE Read
GNext == /\ (IF k = 0 THEN last' = [op |-> "start"] /\ UNCHANGED <<fr, base>> ELSE Step)
         /\ k' = (k + 1) % (Steps + 1)
         /\ PrintT("@@" \o ToJson(last'))
         /\ UNCHANGED <<cap, bt, phase, at, left, out, answer>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
