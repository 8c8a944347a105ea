---------------------------- MODULE Gen_BadVector ----------------------------
(* Random damages of serialized vectors, read into vectors that are used     *)
(* afterwards.                                                               *)
EXTENDS BadVector, Json
CONSTANTS Steps, Bt, Chunk, Raw, MaxChunks

VARIABLES n0, k, last,
          st        \* state of the target vector: "clean" or "murky"
gvars == <<fr, cap, bt, phase, at, left, out, answer, n0, k, last, st>>
Pick(q) == q[RandomElement(1..Len(q))]
NOM == 10
Per == Chunk \div Bt
Home(n) == [Intact(n, Chunk, 255, NOM) EXCEPT !.raw = Raw]
Count(r) == CASE r <= 10 -> RandomElement(0..20)
              [] r <= 50 -> Per * RandomElement(0..MaxChunks) + Pick(<<0, 0, 1, Per - 1, Per \div 2, 16>>)
              [] OTHER -> RandomElement(0..MaxChunks * Per)
New == \E c \in {Count(RandomElement(1..100))} :
         /\ n0' = c * Bt /\ fr' = Home(c * Bt) /\ UNCHANGED st
         /\ last' = [op |-> "base", bt |-> Bt, n |-> c * Bt, ss |-> Chunk, d |-> <<RandomElement(0..25), RandomElement(0..99)>>]
Restore == fr' = Home(n0) /\ last' = [op |-> "restore"] /\ UNCHANGED <<n0, st>>
Edit(g, rec) == fr' = g /\ last' = rec /\ UNCHANGED <<n0, st>>
N == Len(fr.sbs)
Damage(r) == \E i \in {RandomElement(1..(IF N = 0 THEN 1 ELSE N))}, j \in {RandomElement(1..(IF N = 0 THEN 1 ELSE N))} :
    IF fr.hdr # 12 THEN Restore
    ELSE IF r <= 8 THEN \E c \in {Pick(<<0, 1, 2, 3, 4, 5, 6, 127, 128, 254, 255>>)} : Edit(SetCode(fr, c), [op |-> "code", v |-> c])
    ELSE IF r <= 24 THEN \E s \in {Max(0, CASE r <= 11 -> n0 + Pick(<<1, -1, Bt, -Bt>>) [] r <= 16 -> n0 + RandomElement(-4..4) * Chunk [] r <= 18 -> 2 * n0 [] r <= 20 -> RandomElement(0..1) * Chunk [] r <= 22 -> RandomElement(0..n0 + 2) [] OTHER -> Pick(<<0, 2000000000, 2147483647>>))} :
                               Edit(SetSize(fr, s), [op |-> "size", v |-> s])
    ELSE IF r <= 32 THEN \E s \in {Max(0, CASE r <= 28 -> Pick(<<0, 1, Bt, Chunk - 1, Chunk + 1, 2 * Chunk, Chunk \div 2, 16777215, 2000000000>>) [] OTHER -> RandomElement(1..2 * Chunk))} :
                               Edit(SetSuper(fr, s), [op |-> "super", v |-> s])
    ELSE IF N = 0 THEN Edit(Trail(fr, 3), [op |-> "trail", v |-> 3])
    ELSE IF r <= 38 THEN \E c \in {Pick(<<1, 2>>)} : Edit(SbCode(fr, i, c), [op |-> "sbcode", i |-> i, v |-> c, r |-> RandomElement(1..250)])
    ELSE IF r <= 48 THEN \E d \in {Pick(<<-1, -2, -NOM, 1, 1, 2, 3, HUGE, HUGE>>)} : Edit(SbLen(fr, i, d), [op |-> "sblen", i |-> i, v |-> IF d = -NOM THEN -HUGE ELSE d])
    ELSE IF r <= 62 THEN \E q \in {IF RandomElement(1..2) = 1 THEN N ELSE i} : Edit(SbBad(fr, q), [op |-> "bad", i |-> q, r |-> RandomElement(1..1000000000), v |-> RandomElement(0..9)])
    ELSE IF r <= 67 THEN \E q \in {IF RandomElement(1..2) = 1 THEN N ELSE i} : Edit(SbCut(fr, q), [op |-> "cut", i |-> q, r |-> RandomElement(1..1000)])
    ELSE IF r <= 72 THEN \E q \in {IF RandomElement(1..2) = 1 THEN N ELSE i} : Edit(SbLong(fr, q), [op |-> "long", i |-> q, r |-> RandomElement(1..1000)])
    ELSE IF r <= 76 THEN Edit(Drop(fr, i), [op |-> "drop", i |-> i])
    ELSE IF r <= 78 THEN Edit(Twice(fr, i), [op |-> "twice", i |-> i])
    ELSE IF r <= 81 THEN Edit(Exchange(fr, i, j), [op |-> "exchange", i |-> i, j |-> j])
    ELSE IF r <= 83 THEN \E t \in {Pick(<<1, 3, 4, 20>>)} : Edit(Trail(fr, t), [op |-> "trail", v |-> t])
    ELSE IF r <= 88 THEN \E q \in {RandomElement(0..fr.hdr - 1)} : Edit(CutHeader(fr, q), [op |-> "cuthdr", v |-> q])
    ELSE IF r <= 94 \/ fr.sbs[i].dl < 0 \/ fr.sbs[i].len = 0 THEN \E q \in {RandomElement(0..3)} : Edit(CutBefore(fr, i, q), [op |-> "cutsb", i |-> i, v |-> q])
    ELSE Edit(CutInside(fr, i), [op |-> "cutin", i |-> i, r |-> RandomElement(1..1000)])
\* k: 0 from memory, 1 from a stream, 2 from memory into a new vector
Read == \E o \in {VOutcome(fr, Bt, Chunk)} :
        last' = [op |-> "vread", k |-> Pick(<<0, 0, 0, 1, 1, 2>>), want |-> o, n |-> fr.size] /\ st' = After1(o, st) /\ UNCHANGED <<fr, n0>>
\* use of the vector after a read: everything that does not read its elements, and everything once it is clean
\* 0 clear and refill, 1 destroy, 2 clear and assign, 3 read the intact data, 4 move away, 5 swap with a filled vector, 6 push then clear (when clean: push and compare), 7 compare, modify
Use == \E h \in {IF st = "clean" THEN RandomElement(0..7) ELSE RandomElement(0..5)} :
        last' = [op |-> "use", k |-> h, v |-> RandomElement(0..3 * Per)] /\ st' = "clean" /\ UNCHANGED <<fr, n0>>
Prefixes == last' = [op |-> "vprefixes", k |-> RandomElement(0..1), n |-> n0] /\ st' = "clean" /\ UNCHANGED <<fr, n0>>
\* other vector types must refuse the data: other chunk size in bytes
Other == last' = [op |-> "other", k |-> RandomElement(0..1), v |-> RandomElement(0..5)] /\ UNCHANGED <<fr, n0, st>>

GInit == /\ fr = Home(0) /\ n0 = 0 /\ k = 0 /\ last = [op |-> "start"] /\ st = "clean"
         /\ cap = 0 /\ bt = 0 /\ phase = "gen" /\ at = 0 /\ left = 0 /\ out = 0 /\ answer = "none"
Step == \E r \in {RandomElement(1..100)} :
        IF k % 20 = 1 THEN New
        ELSE IF st = "murky" /\ r <= 70 THEN Use
        ELSE IF r <= 40 THEN Damage(RandomElement(1..100))
        ELSE IF r <= 75 THEN Read
        ELSE IF r <= 84 THEN Use
        ELSE IF r <= 92 THEN Restore
        ELSE IF r <= 96 THEN Other
        ELSE IF fr = Home(n0) THEN Prefixes ELSE Read
GNext == /\ (IF k = 0 THEN last' = [op |-> "start"] /\ st' = "clean" /\ UNCHANGED <<fr, n0>> ELSE Step)
         /\ k' = (k + 1) % (Steps + 1)
         /\ PrintT("@@" \o ToJson(last'))
         /\ UNCHANGED <<cap, bt, phase, at, left, out, answer>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
