--------------------------- MODULE Gen_BlockCodec ---------------------------
(* Random structures of the superblock encodings: their bytes for the        *)
(* decoder of the library, their content for its encoder.                    *)
EXTENDS BlockCodec, Json
CONSTANTS Steps, MaxBytes

VARIABLES k, last
gvars == <<k, last>>
Pick(q) == q[RandomElement(1..Len(q))]
Byte(z) == RandomElement(0..255)
Min2(x, y) == IF x < y THEN x ELSE y

Bts == <<1, 1, 1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 64, 100>>
Wide == <<256, 257, 500, 511, 512, 513, 600, 1000>>
BoundedBt(z) == IF MaxBytes < 100000 THEN Pick(SelectSeq(Bts, LAMBDA b : 256 * b <= MaxBytes \/ b <= 4)) ELSE Pick(Wide \o Bts)

RandVals(top) == TLCEval([j \in R16 |-> RandomElement(0..top - 1)])
\* few distinct values at the boundaries
EdgeVals(top) == TLCEval([j \in R16 |-> IF RandomElement(1..3) = 1 THEN RandomElement(0..top - 1) ELSE Pick(<<0, 0, top - 1>>)])
SomeVals(top) == IF RandomElement(1..2) = 1 THEN RandVals(top) ELSE EdgeVals(top)
RandFlags(p) == TLCEval([j \in R16 |-> RandomElement(1..10) <= p])
RandRow(h, min) ==
    IF h = 15 THEN [h |-> 15, min |-> min, v |-> SomeVals(256)]
    ELSE IF h \in {6, 7} THEN LET f == TLCEval(RandFlags(RandomElement(0..10))) IN
         [h |-> h, min |-> min, m |-> f, v |-> TLCEval([j \in 1..Cardinality({i \in R16 : ~f[i]}) |-> Byte(j)])]
    ELSE LET top == Pow(Bits(h)) IN
         [h |-> h, min |-> IF h < 8 /\ min > 256 - top THEN 256 - top ELSE min, v |-> SomeVals(top)]
\* rows: style 0 anything, 1 one coding, 2 two codings, 3 flat
Rows(n, st, h0, h1, m0) == TLCEval([j \in 1..n |->
    RandRow(CASE st = 0 -> RandomElement(0..15) [] st = 1 -> h0 [] st = 2 -> Pick(<<h0, h1>>) [] OTHER -> Pick(<<0, 0, 0, h1>>), IF RandomElement(1..3) = 1 THEN Byte(j) ELSE m0)])
AnyRows(n) == Rows(n, RandomElement(0..3), RandomElement(0..15), RandomElement(0..15), RandomElement(0..255))
RandPlane(n, c) ==
    CASE c = SAME -> [code |-> SAME, v |-> Byte(n)]
      [] c = RAW -> [code |-> RAW, v |-> TLCEval([j \in 1..256 |-> Byte(j)])]
      [] OTHER -> [code |-> c, rows |-> TLCEval(AnyRows(n))]
Planes(bt, n) == TLCEval([j \in 1..bt |-> TLCEval(RandPlane(n, IF n < 16 THEN Pick(<<SAME, NORMAL, NORMAL>>) ELSE IF bt > 64 THEN Pick(<<SAME, SAME, SAME, NORMAL, RAW>>) ELSE Pick(<<SAME, RAW, NORMAL, NORMAL, NORMAL, RLEMIN, RLEMIN>>)))])
\* LZ: p chances in 10 of a copy, at distances up to m
RandUnits(n, u, p, m) == TLCEval([j \in 1..n |-> IF j > 1 /\ RandomElement(1..10) <= p
    THEN [d |-> RandomElement(1..(IF j - 1 < m THEN j - 1 ELSE m)), v |-> << >>] ELSE [d |-> 0, v |-> TLCEval([i \in 1..u |-> Byte(i)])]])
RandBlock(bt) == LET r == RandomElement(1..20) IN
    IF r = 1 THEN [kind |-> "copy", v |-> TLCEval([j \in 1..256 * bt |-> Byte(j)])]
    ELSE IF r <= 5 /\ Unit(bt) # 0 THEN [kind |-> "lz", us |-> TLCEval(RandUnits((256 * bt) \div Unit(bt), Unit(bt), RandomElement(0..10), Pick(<<1, 4, 127, 129, 300, 40000>>)))]
    ELSE [kind |-> "planes", ps |-> TLCEval(Planes(bt, 16))]
RandTail(bt, m) == LET rows == m \div (16 * bt) IN
    [rows |-> rows, ps |-> IF rows = 0 THEN << >> ELSE TLCEval(Planes(bt, rows)), raw |-> TLCEval([j \in 1..m - rows * 16 * bt |-> Byte(j)])]

\* LET definitions are evaluated at each use: values are bound with \E
Stream == \E bt \in {BoundedBt(k)} :
          \E nb \in {IF MaxBytes >= 100000 THEN 1 ELSE RandomElement(0..Min2(4, MaxBytes \div (256 * bt) + 1))},
             m \in {CASE RandomElement(1..5) = 1 -> 0 [] RandomElement(1..4) = 1 -> RandomElement(0..16 * bt) [] RandomElement(1..2) = 1 -> 16 * bt * RandomElement(0..15) [] OTHER -> RandomElement(0..256 * bt - 1)} :
          \E bs \in {TLCEval([j \in 1..nb |-> TLCEval(RandBlock(bt))])}, t \in {TLCEval(RandTail(bt, m))} :
          \E s \in {TLCEval(Flat([j \in 1..nb |-> PutBlock(bs[j])]) \o (IF m = 0 THEN << >> ELSE PutTail(t)))},
             c \in {TLCEval(Flat([j \in 1..nb |-> BlockVals(bs[j])]) \o (IF m = 0 THEN << >> ELSE TailVals(t)))} :
          /\ Assert(LET r == ReadStream(s, bt, Len(c)) IN Len(c) = 0 \/ (r.p = Len(s) + 1 /\ r.v = c), "the two formulations differ")
          /\ last' = [op |-> "stream", bt |-> bt, n |-> Len(c), s |-> s, c |-> c, level |-> RandomElement(1..9), r |-> RandomElement(1..100000)]
Order == \E bt \in {Pick(<<2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 11, 12, 13, 16, 16, 17, 18, 24, 31, 32, 33, 48, 64, 65, 100>>)} :
         \E n \in {CASE RandomElement(1..4) = 1 -> RandomElement(1..400) [] RandomElement(1..3) = 1 -> bt * RandomElement(1..(3000 \div bt)) [] OTHER -> RandomElement(1..5000)} :
         \E c \in {TLCEval([j \in 1..n |-> IF RandomElement(1..3) = 1 THEN Byte(j) ELSE (j * bt) % 256])}, d \in {RandomElement(0..1)} :
         last' = [op |-> "order", bt |-> bt, n |-> n, s |-> IF d = 1 THEN Delta(Transpose(c, bt)) ELSE Transpose(c, bt), c |-> c, v |-> IF d = 1 THEN CDELTA ELSE CTRANS, level |-> RandomElement(1..9), r |-> RandomElement(1..100000)]
\* contents for the encoder: classes of harness/datagen.h
Enc == \E bt \in {BoundedBt(k)} : \E nb \in {RandomElement(0..(MaxBytes \div (256 * bt)) + 1)} :
       \E n \in {256 * bt * nb + (CASE RandomElement(1..3) = 1 -> 0 [] RandomElement(1..2) = 1 -> 16 * bt * RandomElement(0..15) [] OTHER -> RandomElement(0..256 * bt - 1))} :
       last' = [op |-> "enc", bt |-> bt, n |-> n, level |-> Pick(<<1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9>>), threads |-> Pick(<<1, 1, 1, 2>>), blk |-> Pick(<<-1, -1, -1, 0, 1>>), d |-> <<RandomElement(0..25), RandomElement(0..9999)>>, r |-> RandomElement(1..100000)]

GInit == k = 0 /\ last = [op |-> "start"]
GNext == /\ (IF k = 0 THEN last' = [op |-> "start"]
             ELSE \E r \in {RandomElement(1..10)} : IF r <= 4 THEN Stream ELSE IF r = 5 THEN Order ELSE Enc)
         /\ k' = (k + 1) % (Steps + 1)
         /\ PrintT("@@" \o ToJson(last'))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
