--------------------------- MODULE Gen_Accounting ---------------------------
(* Histories of calls with the memory each context may keep after them (Memory), mixed with *)
(* timers under a clock that advances as it likes (Timer).                                  *)
EXTENDS Gen_Stenos, Memory, Timer
avars == <<gvars, mem, tvars>>

Used(ss, n, thr) == IF n = 0 \/ ss <= 0 THEN 1 ELSE Min(thr, Blocks(n, ss))
SsOf(l) == IF l.op = "compress" THEN l.ss ELSE frame[l.s].ss
Track ==
    IF last'.op = "start" THEN mem' = [c \in Ctx |-> NoMem]
    ELSE IF last'.op = "new" THEN MemNew(last'.c)
    ELSE IF last'.op \notin {"compress", "decompress", "short", "badtype"} \/ last'.c = "-" THEN UNCHANGED mem
    ELSE LET l == last' ss == SsOf(l) w == IF l.op = "badtype" THEN 1 ELSE Used(ss, l.n, l.threads) IN
         IF l.op = "compress" /\ l.err \in {EBT, EPARAM} THEN MemFail(l.c, 0, 1)
         ELSE IF l.op \in {"compress", "decompress"} /\ l.want = "ok" THEN MemCall(l.c, ss, w)
         ELSE MemFail(l.c, ss, w)

Secs == <<0, 1, 2, 59, 1000, 86400, 2000000>>
Step1(t) == LET f == Pick(<<0, 1, 999999998, 999999999, t[2], RandomElement(0..999999999), (t[2] + 1) % 1000000000, (t[2] + 999999999) % 1000000000>>)
                s == t[1] + Pick(Secs) IN
            IF s > 2000000000 THEN <<t[1], t[2]>> ELSE IF s = t[1] /\ f < t[2] THEN <<s + 1, f>> ELSE <<s, f>>
TimerStep ==
    \E i \in {RandomElement(Timers)}, r \in {RandomElement(1..100)} :
       /\ IF ~exists[i] THEN TNew(i)
          ELSE IF r <= 45 THEN (IF start[i][1] >= 0 /\ r <= 30 THEN Tock(i) ELSE Tick(i))
          ELSE IF r <= 92 THEN Advance(Step1(now)) ELSE TDelete(i)
       /\ last' = IF ~exists[i] THEN [op |-> "tnew", v |-> i]
                  ELSE IF r <= 45 THEN (IF start[i][1] >= 0 /\ r <= 30 THEN [op |-> "tock", v |-> i, cut |-> said'[1], len |-> said'[2]] ELSE [op |-> "tick", v |-> i])
                  ELSE IF r <= 92 THEN [op |-> "clock", cut |-> now'[1], len |-> now'[2]]
                  ELSE [op |-> "tdel", v |-> i]
       /\ UNCHANGED <<ctx, frame, mem>> /\ k' = (k + 1) % (Steps + 1)

AInit == GInit /\ mem = [c \in Ctx |-> NoMem] /\ TInit(<<5, 0>>)
CallStep == GStep /\ Track /\ (IF k = 0 THEN /\ start' = [i \in Timers |-> <<-1, 0>>] /\ exists' = [i \in Timers |-> FALSE] /\ said' = <<0, 0>>
                                              /\ now' = <<Pick(<<0, 5, 1700000000>>), Pick(<<0, 999999999, 500000000>>)>>
                               ELSE UNCHANGED tvars)
ANext == /\ \E r \in {RandomElement(1..100)} : IF k > 0 /\ r <= 35 THEN TimerStep ELSE CallStep
         /\ PrintT("@@" \o ToJson(IF last'.op = "start" THEN [op |-> "start", cut |-> now'[1], len |-> now'[2]]
                                  ELSE IF "c" \in DOMAIN last' /\ last'.c \in Ctx THEN last' @@ [held |-> mem'[last'.c].hi] ELSE last'))
ASpec == AInit /\ [][ANext]_avars
=============================================================================
