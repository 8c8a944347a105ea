----------------------------- MODULE BlockCodec -----------------------------
(* The encodings of superblocks: block streams (256 elements at a time, one  *)
(* byte plane after the other, rows of 16 values), LZ blocks, partial tails, *)
(* transposition and byte delta.  Read* give the meaning of a byte stream,   *)
(* Put* and Of* independently give the bytes and the content of a structure. *)
(* All sequences are sequences of bytes 0..255 unless said otherwise.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow(k) == P2[k + 1]
BitOf(m, k) == (m \div Pow(k)) % 2        \* k from 0
Nibbles(k) == (k + 1) \div 2              \* bytes holding k nibbles
R16 == 1..16

\* kinds of byte plane
SAME   == 0
RAW    == 1
NORMAL == 2
RLEMIN == 3
\* first byte of a block without planes, and of the tail
BCOPY == 252
BLZ   == 253
BPART == 254
\* codings of a row: 0..5 offset of a minimum on h bits, 6 runs of deltas, 7 runs,
\* 8..14 deltas above a minimum on h - 8 bits, 15 raw
HasMin(h) == h \notin {6, 7, 15}
Bits(h) == IF h < 8 THEN h ELSE h - 8

\* unit of the LZ blocks; 0: no such block for this element size
Unit(bt) == IF bt > 512 THEN 0 ELSE IF bt % 8 = 0 THEN 8 ELSE IF bt <= 2 \/ bt % 4 = 0 THEN 4 ELSE IF bt % 6 = 0 THEN 6 ELSE IF bt % 3 = 0 THEN 3 ELSE 0

-----------------------------------------------------------------------------
\* Meaning.  Every reader returns the position after what it read (0: malformed) and the value.
BAD == [p |-> 0, v |-> << >>]
Has(s, p, n) == p > 0 /\ p + n - 1 <= Len(s)

\* running sums
Sums(q, first, min) == Tail(FoldLeft(LAMBDA a, x : Append(a, (a[Len(a)] + x + min) % 256), <<first>>, q))

\* 16 values on `bits` bits: two groups of 8 values
Unpack(s, p, bits) ==
    [k \in R16 |-> LET g == (k - 1) \div 8  o == ((k - 1) % 8) * bits  b == p + g * bits + o \div 8  sh == o % 8
                   IN IF bits = 0 THEN 0
                      ELSE ((s[b] + (IF sh + bits > 8 THEN 256 * s[b + 1] ELSE 0)) \div Pow(sh)) % Pow(bits)]

\* 16 values with repetitions: a mask of 16 bits (1: same as the previous one), then the others
ReadRuns(s, p, prev) ==
    IF ~Has(s, p, 2) THEN BAD
    ELSE LET m == s[p] + 256 * s[p + 1]
             z == FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + 1 - BitOf(m, k - 1)), <<0>>, [k \in R16 |-> k])
             \* z[k + 1]: number of values written among the first k
         IN IF ~Has(s, p + 2, z[17]) THEN BAD
            ELSE [p |-> p + 2 + z[17], v |-> [k \in R16 |-> IF z[k + 1] = 0 THEN prev ELSE s[p + 1 + z[k + 1]]]]

ReadRow(s, p, h, min, prev) ==
    IF h = 15 THEN (IF Has(s, p, 16) THEN [p |-> p + 16, v |-> SubSeq(s, p, p + 15)] ELSE BAD)
    ELSE IF h = 7 THEN ReadRuns(s, p, prev)
    ELSE IF h = 6 THEN LET r == ReadRuns(s, p, 0) IN IF r.p = 0 THEN BAD ELSE [p |-> r.p, v |-> Sums(r.v, prev, 0)]
    ELSE LET b == Bits(h) IN
         IF b > 0 /\ ~Has(s, p, 2 * b) THEN BAD
         ELSE [p |-> p + 2 * b, v |-> IF h < 8 THEN [k \in R16 |-> (Unpack(s, p, b)[k] + min) % 256] ELSE Sums(Unpack(s, p, b), prev, min)]

\* rows with the codings hs and minimums ms (one per row, 0 where there is none)
ReadRows(s, p, hs, ms) ==
    FoldLeft(LAMBDA a, k : IF a.p = 0 THEN a
                           ELSE LET r == ReadRow(s, a.p, hs[k], ms[k], IF k = 1 THEN 0 ELSE a.v[Len(a.v)])
                                IN [p |-> r.p, v |-> a.v \o r.v],
             [p |-> p, v |-> << >>], [k \in 1..Len(hs) |-> k])

ReadHeaders(s, p, n) == [k \in 1..n |-> IF k % 2 = 1 THEN s[p + (k - 1) \div 2] % 16 ELSE s[p + (k - 1) \div 2] \div 16]

\* a plane of n rows
ReadNormal(s, p, n) ==
    IF ~Has(s, p, Nibbles(n)) THEN BAD
    ELSE LET hs == ReadHeaders(s, p, n)
             q  == p + Nibbles(n)
             \* c[k + 1]: number of minimums among the first k rows
             c  == FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + (IF HasMin(hs[k]) THEN 1 ELSE 0)), <<0>>, [k \in 1..n |-> k])
         IN IF ~Has(s, q, c[n + 1]) THEN BAD
            ELSE ReadRows(s, q + c[n + 1], hs, [k \in 1..n |-> IF HasMin(hs[k]) THEN s[q + c[k]] ELSE 0])
ReadRleMin(s, p) ==
    IF ~Has(s, p, 8) THEN BAD
    ELSE LET hs == ReadHeaders(s, p, 16)  m == ReadRuns(s, p + 8, 0) IN IF m.p = 0 THEN BAD ELSE ReadRows(s, m.p, hs, m.v)
ReadPlane(s, p, code, n) ==
    IF code = SAME THEN (IF Has(s, p, 1) THEN [p |-> p + 1, v |-> [k \in 1..16 * n |-> s[p]]] ELSE BAD)
    ELSE IF code = RAW /\ n = 16 THEN (IF Has(s, p, 256) THEN [p |-> p + 256, v |-> SubSeq(s, p, p + 255)] ELSE BAD)
    ELSE IF code = NORMAL THEN ReadNormal(s, p, n)
    ELSE IF code = RLEMIN /\ n = 16 THEN ReadRleMin(s, p)
    ELSE BAD
\* all the planes of n rows of elements of bt bytes, as elements
Weave(planes, bt, n) == [k \in 1..n * bt |-> planes[((k - 1) % bt) + 1][((k - 1) \div bt) + 1]]
ReadPlanes(s, p, bt, n) ==
    IF ~Has(s, p, Nibbles(bt)) THEN BAD
    ELSE LET cs == ReadHeaders(s, p, bt)
             r  == FoldLeft(LAMBDA a, k : IF a.p = 0 THEN a ELSE LET x == ReadPlane(s, a.p, cs[k], n) IN [p |-> x.p, v |-> Append(a.v, x.v)],
                            [p |-> p + Nibbles(bt), v |-> << >>], [k \in 1..bt |-> k])
         IN IF r.p = 0 THEN BAD ELSE [p |-> r.p, v |-> Weave(r.v, bt, 16 * n)]

\* an LZ block: groups of 8 units, each one raw or a distance in units
ReadLZ(s, p, bt) ==
    LET u == Unit(bt)
        unit(a) == SubSeq(s, a, a + u - 1)
        one(a, k) ==        \* a.v: sequence of units
            IF a.p = 0 THEN a
            ELSE IF (k - 1) % 8 = 0 /\ ~Has(s, a.p, 1) THEN [a EXCEPT !.p = 0]
            ELSE LET an == IF (k - 1) % 8 = 0 THEN s[a.p] ELSE a.an
                     p1 == IF (k - 1) % 8 = 0 THEN a.p + 1 ELSE a.p
                 IN IF BitOf(an, (k - 1) % 8) = 0
                    THEN (IF Has(s, p1, u) THEN [p |-> p1 + u, v |-> Append(a.v, unit(p1)), an |-> an] ELSE [a EXCEPT !.p = 0])
                    ELSE IF ~Has(s, p1, IF Has(s, p1, 1) /\ s[p1] >= 128 THEN 2 ELSE 1) THEN [a EXCEPT !.p = 0]
                    ELSE LET d == IF s[p1] < 128 THEN s[p1] ELSE s[p1] - 128 + 128 * s[p1 + 1]
                         IN IF d = 0 \/ d >= k THEN [a EXCEPT !.p = 0]
                            ELSE [p |-> p1 + (IF s[p1] < 128 THEN 1 ELSE 2), v |-> Append(a.v, a.v[k - d]), an |-> an]
        r == FoldLeft(one, [p |-> p, v |-> << >>, an |-> 0], [k \in 1..(256 * bt) \div u |-> k])
    IN IF u = 0 THEN BAD ELSE IF r.p = 0 THEN BAD
       ELSE [p |-> r.p, v |-> [k \in 1..256 * bt |-> r.v[(k - 1) \div u + 1][((k - 1) % u) + 1]]]

ReadBlock(s, p, bt) ==
    IF ~Has(s, p, 1) THEN BAD
    ELSE IF s[p] = BCOPY THEN (IF Has(s, p + 1, 256 * bt) THEN [p |-> p + 1 + 256 * bt, v |-> SubSeq(s, p + 1, p + 256 * bt)] ELSE BAD)
    ELSE IF s[p] = BLZ THEN ReadLZ(s, p + 1, bt)
    ELSE ReadPlanes(s, p, bt, 16)
\* the last m < 256 * bt bytes
ReadTail(s, p, bt, m) ==
    IF ~Has(s, p, 1) THEN BAD ELSE IF s[p] # BPART THEN BAD
    ELSE LET rows == m \div (16 * bt)
             r == IF rows = 0 THEN [p |-> p + 1, v |-> << >>] ELSE ReadPlanes(s, p + 1, bt, rows)
             x == m - rows * 16 * bt
         IN IF r.p = 0 THEN BAD ELSE IF x = 0 THEN r
            ELSE IF Has(s, r.p, x) THEN [p |-> r.p + x, v |-> r.v \o SubSeq(s, r.p, r.p + x - 1)] ELSE BAD

\* content of n bytes encoded by the stream s
ReadStream(s, bt, n) ==
    LET nb == n \div (256 * bt)
        r  == FoldLeft(LAMBDA a, k : IF a.p = 0 THEN a ELSE LET x == ReadBlock(s, a.p, bt) IN [p |-> x.p, v |-> Append(a.v, x.v)],
                       [p |-> 1, v |-> << >>], [k \in 1..nb |-> k])
        m  == n - nb * 256 * bt
        t  == IF r.p = 0 THEN BAD ELSE IF m = 0 THEN [p |-> r.p, v |-> << >>] ELSE ReadTail(s, r.p, bt, m)
    IN IF t.p = 0 \/ t.p # Len(s) + 1 THEN BAD
       ELSE [p |-> t.p, v |-> [k \in 1..nb * 256 * bt |-> r.v[(k - 1) \div (256 * bt) + 1][((k - 1) % (256 * bt)) + 1]] \o t.v]

\* transposition of whole elements; the bytes after the last one stay
Untranspose(s, bt) == LET e == Len(s) \div bt IN [k \in 1..Len(s) |-> IF k > e * bt THEN s[k] ELSE s[((k - 1) % bt) * e + (k - 1) \div bt + 1]]
Transpose(s, bt) == LET e == Len(s) \div bt IN [k \in 1..Len(s) |-> IF k > e * bt THEN s[k] ELSE s[((k - 1) % e) * bt + (k - 1) \div e + 1]]
\* byte delta: one stream up to 2048 bytes, else four streams then the last bytes
Starts(n) == IF n <= 2048 THEN {1} ELSE {1, n \div 4 + 1, 2 * (n \div 4) + 1, 3 * (n \div 4) + 1}
Delta(s) == [k \in 1..Len(s) |-> IF k \in Starts(Len(s)) THEN s[k] ELSE (s[k] - s[k - 1]) % 256]
Undelta(s) == LET st == Starts(Len(s)) IN FoldLeft(LAMBDA a, k : Append(a, IF k \in st THEN s[k] ELSE (a[k - 1] + s[k]) % 256), << >>, [k \in 1..Len(s) |-> k])

\* content of a superblock of kind `code` (after the inverse of zstd where there is one)
CBLOCK == 1
CZSTD == 2
CTRANS == 3
CDELTA == 4
CBLOCKZ == 5
CCOPY == 6
Superblock(code, s, bt, n) ==
    IF code \in {CBLOCK, CBLOCKZ} THEN LET r == ReadStream(s, bt, n) IN IF r.p = 0 THEN << >> ELSE r.v
    ELSE IF code \in {CZSTD, CCOPY} THEN s
    ELSE IF code = CTRANS THEN Untranspose(s, bt)
    ELSE IF code = CDELTA THEN Untranspose(Undelta(s), bt)
    ELSE << >>

-----------------------------------------------------------------------------
\* Structures.  A row: [h, min, v] with v the 16 offsets or deltas (bit packed codings), the 16 raw
\* values, or for runs [h, m, v] with the 16 flags m and the values v of the flags 0.
Flat(q) == FoldLeft(LAMBDA a, x : a \o x, << >>, q)
Num(bits) == FoldLeft(LAMBDA a, k : a + (IF bits[k] THEN Pow(k - 1) ELSE 0), 0, [k \in 1..Len(bits) |-> k])

\* values of a row after the value prev
RunVals(r, prev) == FoldLeft(LAMBDA a, k : LET last == IF k = 1 THEN prev ELSE a.o[k - 1] IN
                                           IF r.m[k] THEN [o |-> Append(a.o, last), j |-> a.j] ELSE [o |-> Append(a.o, r.v[a.j]), j |-> a.j + 1],
                             [o |-> << >>, j |-> 1], [k \in R16 |-> k]).o
Deltas(q, prev) == FoldLeft(LAMBDA a, k : Append(a, ((IF k = 1 THEN prev ELSE a[k - 1]) + q[k]) % 256), << >>, [k \in R16 |-> k])
RowVals(r, prev) ==
    CASE r.h = 15 -> r.v
      [] r.h = 7  -> RunVals(r, prev)
      [] r.h = 6  -> Deltas(RunVals(r, 0), prev)
      [] r.h < 6  -> [k \in R16 |-> r.v[k] + r.min]
      [] OTHER    -> Deltas([k \in R16 |-> r.v[k] + r.min], prev)
RowsVals(rows) == FoldLeft(LAMBDA a, r : a \o RowVals(r, IF a = << >> THEN 0 ELSE a[Len(a)]), << >>, rows)

\* bytes of a row: bit k of the values is written at bit position (value index) * bits + k
RECURSIVE BytesOfBits(_)
BytesOfBits(bs) == IF bs = << >> THEN << >> ELSE <<Num(SubSeq(bs, 1, 8))>> \o BytesOfBits(SubSeq(bs, 9, Len(bs)))
PutPacked(v, bits) == IF bits = 0 THEN << >> ELSE BytesOfBits([i \in 1..16 * bits |-> BitOf(v[(i - 1) \div bits + 1], (i - 1) % bits) = 1])
PutRuns(r) == <<Num(SubSeq(r.m, 1, 8)), Num(SubSeq(r.m, 9, 16))>> \o r.v
PutRow(r) == IF r.h = 15 THEN r.v ELSE IF r.h \in {6, 7} THEN PutRuns(r) ELSE PutPacked(r.v, Bits(r.h))
PutNibbles(q) == [k \in 1..Nibbles(Len(q)) |-> q[2 * k - 1] + 16 * (IF 2 * k <= Len(q) THEN q[2 * k] ELSE 0)]
Heads(rows) == [k \in 1..Len(rows) |-> rows[k].h]
Mins(rows) == LET q == SelectSeq(rows, LAMBDA r : HasMin(r.h)) IN [k \in 1..Len(q) |-> q[k].min]
\* the shortest flags: a value equal to the previous one is always repeated
Flags(q, prev) == [k \in 1..Len(q) |-> q[k] = (IF k = 1 THEN prev ELSE q[k - 1])]
Kept(q, m) == LET r == SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k : ~m[k]) IN [k \in 1..Len(r) |-> q[r[k]]]

\* a plane: [code, v] or [code, rows]; RLEMIN: rows with a minimum each
PutPlane(x) ==
    CASE x.code = SAME -> <<x.v>>
      [] x.code = RAW  -> x.v
      [] x.code = NORMAL -> PutNibbles(Heads(x.rows)) \o Mins(x.rows) \o Flat([k \in 1..Len(x.rows) |-> PutRow(x.rows[k])])
      [] x.code = RLEMIN -> LET ms == [k \in R16 |-> x.rows[k].min]  f == Flags(ms, 0) IN
                            PutNibbles(Heads(x.rows)) \o PutRuns([h |-> 7, m |-> f, v |-> Kept(ms, f)]) \o Flat([k \in 1..Len(x.rows) |-> PutRow(x.rows[k])])
PlaneVals(x, n) == CASE x.code = SAME -> [k \in 1..16 * n |-> x.v] [] x.code = RAW -> x.v [] OTHER -> RowsVals(x.rows)
PutPlanes(ps) == PutNibbles([k \in 1..Len(ps) |-> ps[k].code]) \o Flat([k \in 1..Len(ps) |-> PutPlane(ps[k])])
PlanesVals(ps, n) == LET v == TLCEval([k \in 1..Len(ps) |-> TLCEval(PlaneVals(ps[k], n))]) IN Weave(v, Len(ps), 16 * n)

\* an LZ block: units, each [d |-> 0, v |-> bytes] or [d |-> distance]
PutDist(d) == IF d < 128 THEN <<d>> ELSE <<128 + (d % 128), d \div 128>>
PutGroup(g) == <<Num([k \in 1..8 |-> g[k].d # 0])>> \o Flat([k \in 1..8 |-> IF g[k].d = 0 THEN g[k].v ELSE PutDist(g[k].d)])
PutLZ(us) == Flat([g \in 1..Len(us) \div 8 |-> PutGroup(SubSeq(us, 8 * g - 7, 8 * g))])
LZVals(us) == Flat(FoldLeft(LAMBDA a, x : Append(a, IF x.d = 0 THEN x.v ELSE a[Len(a) + 1 - x.d]), << >>, us))

\* a block: [kind "planes", ps] [kind "copy", v] [kind "lz", us]; a tail: [ps (may be empty), rows, raw]
PutBlock(b) == CASE b.kind = "planes" -> PutPlanes(b.ps) [] b.kind = "copy" -> <<BCOPY>> \o b.v [] b.kind = "lz" -> <<BLZ>> \o PutLZ(b.us)
BlockVals(b) == CASE b.kind = "planes" -> PlanesVals(b.ps, 16) [] b.kind = "copy" -> b.v [] b.kind = "lz" -> LZVals(b.us)
PutTail(t) == <<BPART>> \o (IF t.rows = 0 THEN << >> ELSE PutPlanes(t.ps)) \o t.raw
TailVals(t) == (IF t.rows = 0 THEN << >> ELSE PlanesVals(t.ps, t.rows)) \o t.raw
=============================================================================
