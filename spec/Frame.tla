------------------------------- MODULE Frame -------------------------------
(* Arithmetic of the frame format: superblock sizes, headers and bounds.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
-----------------------------------------------------------------------------
\* Published constants and error codes (stenos.h)
BLOCK     == 131072
MAXBLOCK  == 16777215
MAXBT     == MAXBLOCK \div 256
NOSHIFT   == -1                     \* "no custom superblock size"
EUNDEF    == -1
ESRC      == -2
EALLOC    == -3
EINPUT    == -4
EDST      == -6
EBT       == -7
EPARAM    == -9

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Shl(_, _)
Shl(x, k) == IF k = 0 THEN x ELSE Shl(2 * x, k - 1)

-----------------------------------------------------------------------------
\* Superblock layout of a frame
BaseSuper(bt) ==
    LET b == bt * 256 IN IF b > BLOCK THEN b ELSE (BLOCK \div b) * b

ValidBt(bt) == bt > 0 /\ bt < MAXBT

\* Layout chosen for a compression without time limit: error, or superblock size and header code
Layout(p, bt, n) ==
    IF ~ValidBt(bt) THEN [err |-> EBT, ss |-> 0, shift |-> 0]
    ELSE LET b    == bt * 256
             base == BaseSuper(bt)
             \* a custom size that would not fit 24 bits is refused; computed without overflow
             big  == p.blk # NOSHIFT /\ MAXBLOCK \div b < Shl(1, p.blk)
             k    == IF n > base /\ p.level > 0 THEN (p.level - 1) \div 2 ELSE 0
             ss   == IF p.blk # NOSHIFT THEN (IF big THEN MAXBLOCK ELSE Shl(b, p.blk))
                     ELSE Shl(base, k)
         IN IF ss >= MAXBLOCK THEN [err |-> EPARAM, ss |-> 0, shift |-> 0]
            ELSE [err |-> 0, ss |-> ss, shift |-> IF p.blk # NOSHIFT THEN 255 ELSE k]

HeaderLen(shift) == IF shift = 255 THEN 12 ELSE 8
Blocks(n, ss)    == IF n = 0 THEN 0 ELSE (n - 1) \div ss + 1
SuperSize(n, ss, i) == IF i < Blocks(n, ss) THEN ss ELSE n - (Blocks(n, ss) - 1) * ss
Bound(n) == LET cnt == (n + 65791) \div 65792 IN 12 + 4 * Max(1, cnt) + n

\* Length of a frame: at most the header, 4 bytes per superblock and the raw bytes;
\* exactly that for level 0.
MaxLen(l, n) == IF l.err # 0 THEN 0 ELSE HeaderLen(l.shift) + 4 * Blocks(n, l.ss) + n
MinLen(p, l, n) == IF l.err # 0 THEN 0
                   ELSE IF n = 0 THEN HeaderLen(l.shift)
                   ELSE IF p.level = 0 THEN MaxLen(l, n)
                   ELSE HeaderLen(l.shift) + 5 * Blocks(n, l.ss)

=============================================================================
