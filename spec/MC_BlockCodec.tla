---------------------------- MODULE MC_BlockCodec ----------------------------
(* Both formulations of the encodings agree: every pair of adjacent row      *)
(* codings at every alignment, every kind of plane, tails of every number of *)
(* rows, LZ distances of both lengths; transposition and delta are bijective.*)
EXTENDS BlockCodec
CONSTANT Deep

VARIABLES what, a, b, x
vars == <<what, a, b, x>>

\* row of coding h with the pattern q
Flg(q) == CASE q = 0 -> [k \in R16 |-> TRUE] [] q = 1 -> [k \in R16 |-> FALSE] [] q = 2 -> [k \in R16 |-> k % 2 = 0] [] OTHER -> [k \in R16 |-> k % 3 # 2]
Row(h, q) ==
    IF h = 15 THEN [h |-> 15, min |-> 0, v |-> [k \in R16 |-> (k * 37 * (q + 1)) % 256]]
    ELSE IF h \in {6, 7} THEN LET f == Flg(q) IN [h |-> h, min |-> 7 * q, m |-> f, v |-> [k \in 1..Cardinality({j \in R16 : ~f[j]}) |-> (k * 91 + 200 * q) % 256]]
    ELSE LET top == Pow(Bits(h)) IN
         [h |-> h, min |-> CASE q = 0 -> 0 [] q = 1 -> 256 - top [] q = 2 -> (IF h < 8 THEN 100 ELSE 255) [] OTHER -> 65,
          v |-> [k \in R16 |-> CASE q = 0 -> 0 [] q = 1 -> top - 1 [] q = 2 -> k % top [] OTHER -> (k * k * 11) % top]]
Plane(code, h, g, q) == [code |-> code, rows |-> [k \in R16 |-> Row(IF k % 2 = 1 THEN h ELSE g, (q + k \div 3) % 4)]]

CheckPlane == /\ what = "rows"
              /\ \E q \in 0..3, c \in {NORMAL, RLEMIN} :
                   LET pl == Plane(c, a, b, q)  s == PutPlane(pl)  r == ReadPlane(s, 1, c, 16) IN
                   x' = (r.p = Len(s) + 1 /\ r.v = PlaneVals(pl, 16))
              /\ UNCHANGED <<what, a, b>>
\* tails of a \in 0..15 rows and b further bytes, elements of 1..3 bytes
CheckTail == /\ what = "tail"
             /\ \E bt \in 1..3, h \in {0, 1, 3, 5, 6, 7, 8, 11, 14, 15} :
                  LET extra == IF b = 0 THEN 0 ELSE IF b = 1 THEN 16 * bt - 1 ELSE 1
                      ps == [k \in 1..bt |-> IF k = 2 THEN [code |-> SAME, v |-> 77] ELSE [code |-> NORMAL, rows |-> [j \in 1..a |-> Row(IF j % 2 = 0 THEN h ELSE (h + k) % 16, (j + k) % 4)]]]
                      t == [rows |-> a, ps |-> ps, raw |-> [k \in 1..extra |-> (k * 13) % 256]]
                      m == a * 16 * bt + extra
                      s == PutTail(t)
                      r == ReadStream(s, bt, m)
                  IN m > 0 /\ x' = (r.p = Len(s) + 1 /\ r.v = TailVals(t))
             /\ UNCHANGED <<what, a, b>>
CheckLZ == /\ what = "lz"
           /\ \E bt \in IF Deep THEN {1, 2, 3, 4, 6, 8, 9, 12, 16} ELSE {1, 2, 3, 4, 6, 8} :
                LET u == Unit(bt)  n == (256 * bt) \div u
                    us == [k \in 1..n |-> IF (k * a) % 5 < 2 \/ k = 1 THEN [d |-> 0, v |-> [j \in 1..u |-> (k * j) % 256]]
                                          ELSE [d |-> IF b = 0 THEN 1 ELSE IF b = 1 THEN k - 1 ELSE 1 + ((k * 7) % (k - 1)), v |-> << >>]]
                    s == PutLZ(us)  r == ReadLZ(s, 1, bt)
                IN x' = (r.p = Len(s) + 1 /\ r.v = LZVals(us) /\ Len(r.v) = 256 * bt)
           /\ UNCHANGED <<what, a, b>>
CheckOrder == /\ what = "order"
              /\ \E bt \in {2, 3, 4, 7} : LET n == 11 * a + b * 700  s == [k \in 1..n |-> (k * k * 31 + k \div 7) % 256] IN
                   x' = (Untranspose(Transpose(s, bt), bt) = s /\ Undelta(Delta(s)) = s)
              /\ UNCHANGED <<what, a, b>>
\* every truncation is noticed
CheckCut == /\ what = "cut"
            /\ LET pl == Plane(IF b = 0 THEN NORMAL ELSE RLEMIN, a, (a + b) % 16, b)  s == PutPlanes(<<pl>>) IN
               \E k \in {0, 1, 9, 12, Len(s) \div 2, Len(s) - 1} : k < Len(s) /\ x' = (ReadStream(SubSeq(s, 1, k), 1, 256).p = 0 /\ ReadStream(s \o <<0>>, 1, 256).p = 0 /\ ReadStream(s, 1, 256).p # 0)
            /\ UNCHANGED <<what, a, b>>

Init == x = TRUE /\ \/ what = "rows" /\ a \in 0..15 /\ b \in 0..15
                    \/ what = "tail" /\ a \in 0..15 /\ b \in 0..2
                    \/ what = "lz" /\ a \in 1..4 /\ b \in 0..2
                    \/ what = "order" /\ a \in 0..5 /\ b \in (IF Deep THEN 0..12 ELSE {0, 2, 3, 4})
                    \/ what = "cut" /\ a \in 0..15 /\ b \in 0..3
Next == CheckPlane \/ CheckTail \/ CheckLZ \/ CheckOrder \/ CheckCut
BSpec == Init /\ [][x /\ Next]_vars
Agree == x
=============================================================================
