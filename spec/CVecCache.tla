------------------------------ MODULE CVecCache ------------------------------
(* Design of the chunk cache of a compressed vector (B02, B03, B11): every    *)
(* chunk has compressed bytes; a few are also decompressed in contexts, kept  *)
(* in a list.  A chunk is decompressed on access, in a context taken from the *)
(* tail of the list among those whose chunk is neither referenced nor still   *)
(* being filled; a modified chunk is compressed before its context is reused. *)
(* It refines the plain map from chunks to values.                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Chunks,   \* chunks 1..n, appended in order
          Keepers,  \* references
          MaxVal    \* contents of a chunk: 0..MaxVal

VARIABLES count,    \* number of chunks
          partial,  \* the last one is being filled
          packed,   \* [Chunks -> contents of the compressed bytes]
          ctx,      \* list of contexts <<identity, chunk (0: none), contents, dirty>>
          pin,      \* [Keepers -> chunk, 0: none]
          peak,     \* largest number of chunks referenced at the same time
          val       \* what was last written to each chunk
vars == <<count, partial, packed, ctx, pin, peak, val>>

Vals == 0..MaxVal
Pinned(c) == \E k \in Keepers : pin[k] = c
Where(q, c) == {i \in 1..Len(q) : q[i][2] = c}
Evictable(q, i) == q[i][2] = 0 \/ (~Pinned(q[i][2]) /\ ~(partial /\ q[i][2] = count))
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
NewId(q) == CHOOSE n \in 1..Len(q) + 1 : \A i \in 1..Len(q) : q[i][1] # n
Pack(p, e) == IF e[2] # 0 /\ e[4] THEN [p EXCEPT ![e[2]] = e[3]] ELSE p
\* a context for a new use: <<list with the context in front, its chunk being 0, packed>>; extra: also release an older one
Acquire(q, p, extra) ==
  LET fresh == << <<NewId(q), 0, 0, FALSE>> >> \o q
      able == {i \in 1..Len(q) : Evictable(q, i)} IN
  IF Len(q) < 2 \/ able = {} THEN <<fresh, p>>
  ELSE LET f == Last(able) e == q[f] more == {i \in able : i < f} p1 == Pack(p, e) IN
       IF extra /\ e[4] /\ more # {}
       THEN LET g == Last(more) IN << << <<e[1], 0, 0, FALSE>> >> \o Without(Without(q, f), g), Pack(p1, q[g])>>
       ELSE << << <<e[1], 0, 0, FALSE>> >> \o Without(q, f), p1>>
\* chunk c decompressed: <<list, packed>>
Load(q, p, c, extra) ==
  IF Where(q, c) # {} THEN <<q, p>>
  ELSE LET a == Acquire(q, p, extra) IN <<[a[1] EXCEPT ![1] = <<@[1], c, a[2][c], FALSE>>], a[2]>>
Contents(c) == IF Where(ctx, c) # {} THEN ctx[Last(Where(ctx, c))][3] ELSE packed[c]

Init == /\ count = 0 /\ partial = FALSE /\ packed = [c \in Chunks |-> 0] /\ ctx = <<>> /\ pin = [k \in Keepers |-> 0] /\ peak = 0
        /\ val = [c \in Chunks |-> 0]
Read(c, x) == LET l == Load(ctx, packed, c, x) IN
  /\ c \in 1..count /\ ctx' = l[1] /\ packed' = l[2] /\ UNCHANGED <<count, partial, pin, peak, val>>
Write(c, v, x) == LET l == Load(ctx, packed, c, x) IN
  /\ c \in 1..count /\ packed' = l[2] /\ ctx' = [l[1] EXCEPT ![Last(Where(l[1], c))] = <<@[1], c, v, TRUE>>]
  /\ val' = [val EXCEPT ![c] = v] /\ UNCHANGED <<count, partial, pin, peak>>
Pin(k, c, x) == LET l == Load(ctx, packed, c, x) S == {pin'[j] : j \in Keepers} \ {0} IN
  /\ pin[k] = 0 /\ c \in 1..count /\ ctx' = l[1] /\ packed' = l[2] /\ pin' = [pin EXCEPT ![k] = c]
  /\ peak' = (IF Cardinality(S) > peak THEN Cardinality(S) ELSE peak) /\ UNCHANGED <<count, partial, val>>
Unpin(k) == pin[k] # 0 /\ pin' = [pin EXCEPT ![k] = 0] /\ UNCHANGED <<count, partial, packed, ctx, peak, val>>
\* a new last chunk; the context of the full last one is reused, except if it is referenced
AddChunk(v, x) ==
  LET w == Where(ctx, count)
      own == count > 0 /\ w # {} /\ ~Pinned(count)
      a == IF own THEN LET i == Last(w) IN << << <<ctx[i][1], 0, 0, FALSE>> >> \o Without(ctx, i), Pack(packed, ctx[i])>> ELSE Acquire(ctx, packed, x) IN
  /\ ~partial /\ count + 1 \in Chunks
  /\ count' = count + 1 /\ partial' = TRUE
  /\ ctx' = [a[1] EXCEPT ![1] = <<@[1], count + 1, v, TRUE>>] /\ packed' = a[2]
  /\ val' = [val EXCEPT ![count + 1] = v] /\ UNCHANGED <<pin, peak>>
Complete == partial /\ partial' = FALSE /\ UNCHANGED <<count, packed, ctx, pin, peak, val>>
RECURSIVE PackAll(_, _)
PackAll(p, q) == IF q = <<>> THEN p ELSE PackAll(Pack(p, Head(q)), Tail(q))
\* everything is compressed but the chunk being filled; one empty context may be kept (a referenced chunk moves on its next use)
Shrink == LET own == SelectSeq(ctx, LAMBDA e : partial /\ e[2] = count)
              rest == SelectSeq(ctx, LAMBDA e : ~(partial /\ e[2] = count)) IN
  /\ packed' = PackAll(packed, rest)
  /\ ctx' = IF own # <<>> \/ rest = <<>> THEN own ELSE << <<rest[1][1], 0, 0, FALSE>> >>
  /\ UNCHANGED <<count, partial, pin, peak, val>>
Next == \/ \E c \in Chunks, x \in BOOLEAN : Read(c, x) \/ (\E v \in Vals : Write(c, v, x)) \/ (\E k \in Keepers : Pin(k, c, x))
        \/ \E k \in Keepers : Unpin(k)
        \/ \E v \in Vals, x \in BOOLEAN : AddChunk(v, x)
        \/ Complete \/ Shrink
Spec == Init /\ [][Next]_vars

TypeOK == /\ count \in 0..Cardinality(Chunks) /\ packed \in [Chunks -> Vals] /\ pin \in [Keepers -> 0..Cardinality(Chunks)]
          /\ \A i \in 1..Len(ctx) : ctx[i][2] \in 0..count
ReadsLatest == \A c \in 1..count : Contents(c) = val[c]
Distinct == \A i, j \in 1..Len(ctx) : i # j => ctx[i][1] # ctx[j][1] /\ (ctx[i][2] = 0 \/ ctx[i][2] # ctx[j][2])
\* an unmodified context holds what the compressed bytes hold
Coherent == \A i \in 1..Len(ctx) : ctx[i][2] # 0 /\ ~ctx[i][4] => ctx[i][3] = packed[ctx[i][2]]
\* the bound on decompressed chunks: two more than the referenced ones
Bounded == Len(ctx) <= peak + 2
PinnedInPlace == [][\/ \A i \in 1..Len(ctx) : ctx[i][2] # 0 /\ Pinned(ctx[i][2]) => \E j \in 1..Len(ctx') : ctx'[j][1] = ctx[i][1] /\ ctx'[j][2] = ctx[i][2]
                    \/ Shrink]_vars
\* refinement: the vector of chunk contents
Plain == INSTANCE PlainMap WITH map <- [c \in 1..count |-> Contents(c)], Values <- Vals
Refines == Plain!Spec
=============================================================================
