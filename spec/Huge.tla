-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* The frame arithmetic of Frame for contents of any size: naturals are    *)
(* sequences of digits in base 65536, least significant first (TLC's own   *)
(* integers have 32 bits).  Operands called k are integers below 32768.    *)
(***************************************************************************)
EXTENDS Frame
W == 65536
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Carry(_, _, _), Borrow(_, _, _, _), Trim(_), Divide(_, _, _, _)
Carry(a, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % W>> \o Carry(a, i, c \div W))
                  ELSE <<(a[i] + c) % W>> \o Carry(a, i + 1, (a[i] + c) \div W)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
Nat2(n) == Trim(Carry(<<n>>, 1, 0))                              \* of an integer
Add(a, b) == Trim(Carry([i \in 1..Max(Len(a), Len(b)) |-> Digit(a, i) + Digit(b, i)], 1, 0))
Times(a, k) == Trim(Carry([i \in 1..Len(a) |-> a[i] * k], 1, 0))
Borrow(a, b, i, c) == IF i > Len(a) THEN <<>>
                      ELSE LET d == a[i] - Digit(b, i) - c IN <<IF d < 0 THEN d + W ELSE d>> \o Borrow(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
Sub(a, b) == Trim(Borrow(a, b, 1, 0))                            \* a >= b
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF Digit(a, i) # Digit(b, i) THEN Digit(a, i) < Digit(b, i) ELSE LessAt(a, b, i - 1)
Less(a, b) == LessAt(a, b, Max(Len(a), Len(b)))
\* quotient by k, digits from the most significant one
Divide(a, k, i, r) == IF i = 0 THEN <<>> ELSE Append(Divide(a, k, i - 1, ((r * W) + a[i]) % k), ((r * W) + a[i]) \div k)
Quo(a, k) == Trim(Divide(a, k, Len(a), 0))
ToInt(a) == Digit(a, 1) + W * Digit(a, 2)                          \* below 2^31

\* floor(floor(a/x)/y) = floor(a/(xy)): the divisors are products of small factors
RECURSIVE QuoAll(_, _)
QuoAll(a, ks) == IF ks = <<>> THEN a ELSE QuoAll(Quo(a, Head(ks)), Tail(ks))
Factors(bt, blk, shift) == <<256, bt>> \o (IF blk # NOSHIFT THEN <<Shl(1, blk)>> ELSE <<IF bt * 256 > BLOCK THEN 1 ELSE BLOCK \div (bt * 256), Shl(1, shift)>>)
BlocksH(n, fs) == IF n = <<>> THEN <<>> ELSE Add(QuoAll(Sub(n, <<1>>), fs), <<1>>)
BoundH(n) == LET cnt == QuoAll(Add(n, Nat2(65791)), <<256, 257>>) IN Add(Add(n, Times(IF cnt = <<>> THEN <<1>> ELSE cnt, 4)), <<12>>)
MaxLenH(n, shift, fs) == Add(Add(n, Times(BlocksH(n, fs), 4)), <<HeaderLen(shift)>>)
Bytes2(d) == <<d % 256, d \div 256>>
\* header: code, 7 bytes of size, and for a custom superblock size its 4 bytes
HeaderH(n, shift, ss) == <<shift>> \o SubSeq(Bytes2(Digit(n, 1)) \o Bytes2(Digit(n, 2)) \o Bytes2(Digit(n, 3)) \o Bytes2(Digit(n, 4)), 1, 7)
                         \o (IF shift = 255 THEN LET s == Nat2(ss) IN Bytes2(Digit(s, 1)) \o Bytes2(Digit(s, 2)) ELSE <<>>)
-----------------------------------------------------------------------------
\* agreement with Frame and with the integers, on the sizes these can represent
Same(n, p, bt) ==
    LET h == Nat2(n) l == Layout(p, bt, n) IN
    /\ ToInt(h) = n
    /\ ToInt(BoundH(h)) = Bound(n)
    /\ l.err = 0 => LET fs == Factors(bt, p.blk, IF l.shift = 255 THEN 0 ELSE l.shift) IN
                    /\ ToInt(BlocksH(h, fs)) = Blocks(n, l.ss)
                    /\ ToInt(MaxLenH(h, l.shift, fs)) = MaxLen(l, n)
    /\ Add(Sub(Add(h, <<0, 1>>), <<0, 1>>), h) = Nat2(2 * n) /\ Times(h, 2) = Nat2(2 * n) /\ Quo(Times(h, 255), 255) = h
    /\ Less(h, Nat2(n + 1)) /\ ~Less(h, h)
=============================================================================
