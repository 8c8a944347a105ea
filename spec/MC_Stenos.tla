---------------------------- MODULE MC_Stenos ----------------------------
(* Exhaustive exploration of the API model with small argument sets. *)
EXTENDS Stenos
CONSTANT Small

Bts == IF Small THEN {0, 3, 513} ELSE {0, 1, 3, 511, 513, 65534, 65535}
Data == {<<"x">>}
SizesOf(bt) == {0, 1, bt, bt * 256} \cup
               (IF ValidBt(bt) THEN {BaseSuper(bt), BaseSuper(bt) + 1, 3 * BaseSuper(bt)} ELSE {})

Next ==
    \/ \E c \in Ctx : New(c) \/ Destroy(c) \/ Reset(c)
    \/ \E c \in Ctx : \E v \in {-1, 0, 1, 3, 9, 10} : SetLevel(c, v)
    \/ \E c \in Ctx : \E v \in {0, 1, 3} : SetThreads(c, v)
    \/ \E c \in Ctx : \E v \in {-1, 0, 15, 16} : SetBlock(c, v)
    \/ \E c \in Ctx, v \in {0, 1} : SetLimit(c, v)
    \/ \E c \in Ctx : FaultNew(c)
    \/ \E c \in Ctx, s \in Slot : FaultDecompress(c, s, 0, 0) \/ \E n \in {0, 5} : FaultCompress(c, s, <<"x">>, 3, n, 0, 0)
    \/ \E c \in Ctx, s \in Slot, bt \in Bts : \E n \in SizesOf(bt) : \E cap \in {-1, 8} : CompressTimed(c, s, <<"x">>, bt, n, cap, <<0>>)
    \/ \E c \in Ctx, s \in Slot, bt \in Bts : \E n \in SizesOf(bt) : \E cap \in {-1, 0, 8} :
          Compress(c, s, <<"x">>, bt, n, cap)
    \/ \E s \in Slot, lvl \in {0, 1, 11} : CompressOnce(lvl, s, <<"x">>, 3, 5, -1)
    \/ \E c \in Ctx, s \in Slot, delta \in {-1, 0, 5} : Decompress(c, s, delta)
    \/ \E s \in Slot, delta \in {-1, 0} : DecompressOnce(s, delta)
    \/ \E c \in Ctx, s \in Slot : DecompressShort(c, s, 1)
    \/ \E s \in Slot, bt \in {0, 1, 3} : \E len \in {7, 8, 12} : Info(s, bt, len)
Spec == Init /\ [][Next]_vars
View == <<ctx, frame>>
=============================================================================
