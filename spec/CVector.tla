------------------------------ MODULE CVector ------------------------------
(* Abstract specification of compressed vectors (B01-B04, B07, B09-B12): a    *)
(* vector is a sequence of values, a reference or a dereferenced iterator     *)
(* designates a position and holds the chunk of this position.                *)
(*                                                                            *)
(* The sequences are run-length encoded: <<a, n, s>> stands for the n values  *)
(* a, a+s, ..., a+(n-1)*s with s in {-1, 0, 1}.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Vec,    \* vectors 1..n
          Refs,   \* slots of references 1..k
          Its,    \* slots of iterators 1..k
          BS      \* elements per chunk

VARIABLES vec,    \* [Vec -> sequence of runs]
          ref,    \* [Refs -> <<v, pos, const, stable>>, or <<>>]; stable: the address of the element cannot have changed
          itr,    \* [Its -> <<v, pos, deref>>, or <<>>]
          maxpin, \* [Vec -> largest number of chunks held at the same time]
          last    \* the operation with its predicted results
cvars == <<vec, ref, itr, maxpin, last>>

\* ---------------------------------------------------------------- runs
RECURSIVE SizeFrom(_, _)
SizeFrom(q, i) == IF i > Len(q) THEN 0 ELSE q[i][2] + SizeFrom(q, i + 1)
Size(q) == SizeFrom(q, 1)
RECURSIVE Find(_, _, _)
Find(q, i, p) == IF i > Len(q) \/ p < q[i][2] THEN <<i, p>> ELSE Find(q, i + 1, p - q[i][2])
At(q, p) == LET f == Find(q, 1, p) IN q[f[1]][1] + f[2] * q[f[1]][3]
Split(q, p) ==
  LET f == Find(q, 1, p) IN
  IF f[1] > Len(q) THEN <<q, <<>> >>
  ELSE IF f[2] = 0 THEN <<SubSeq(q, 1, f[1] - 1), SubSeq(q, f[1], Len(q))>>
  ELSE LET r == q[f[1]] IN
       <<SubSeq(q, 1, f[1] - 1) \o << <<r[1], f[2], r[3]>> >>, << <<r[1] + f[2] * r[3], r[2] - f[2], r[3]>> >> \o SubSeq(q, f[1] + 1, Len(q))>>
\* two runs that make one
StepOf(r, t) == IF r[2] > 1 THEN r[3] ELSE IF t[2] > 1 THEN t[3] ELSE t[1] - r[1]
Joins(r, t) == LET s == StepOf(r, t) IN s \in {-1, 0, 1} /\ (t[2] > 1 => t[3] = s) /\ t[1] = r[1] + r[2] * s
Cat(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE LET r == a[Len(a)] t == b[1] IN
       IF Joins(r, t) THEN SubSeq(a, 1, Len(a) - 1) \o << <<r[1], r[2] + t[2], StepOf(r, t)>> >> \o SubSeq(b, 2, Len(b))
       ELSE a \o b
Run(a, n, s) == IF n = 0 THEN <<>> ELSE << <<a, n, IF n = 1 THEN 0 ELSE s>> >>
Take(q, n) == Split(q, n)[1]
Drop(q, n) == Split(q, n)[2]
Slice(q, p, e) == Take(Drop(q, p), e - p)              \* positions p .. e-1
Replace(q, p, e, r) == Cat(Cat(Take(q, p), r), Drop(q, e))
Put(q, p, x) == Replace(q, p, p + 1, Run(x, 1, 0))
Reverse(q) == [i \in 1..Len(q) |-> LET r == q[Len(q) + 1 - i] IN <<r[1] + (r[2] - 1) * r[3], r[2], -r[3]>>]
RECURSIVE Expand(_, _)
Expand(q, i) == IF i > Len(q) THEN <<>> ELSE [k \in 1..q[i][2] |-> q[i][1] + (k - 1) * q[i][3]] \o Expand(q, i + 1)
RECURSIVE Encode(_, _, _)
Encode(s, i, acc) == IF i > Len(s) THEN acc ELSE Encode(s, i + 1, Cat(acc, Run(s[i], 1, 0)))
Sorted(q) == Encode(SortSeq(Expand(q, 1), LAMBDA a, b : a < b), 1, <<>>)
In(r, x) == r[2] > 0 /\ (IF r[3] = 0 THEN x = r[1] ELSE (x - r[1]) * r[3] >= 0 /\ (x - r[1]) * r[3] < r[2])
\* first position of x at or after run i (offset o of this run), -1: none
RECURSIVE FindValue(_, _, _, _)
FindValue(q, i, o, x) == IF i > Len(q) THEN -1
                         ELSE IF In(q[i], x) THEN o + (x - q[i][1]) * q[i][3]
                         ELSE FindValue(q, i + 1, o + q[i][2], x)
RECURSIVE CountValue(_, _, _)
CountValue(q, i, x) == IF i > Len(q) THEN 0
                       ELSE (IF In(q[i], x) THEN IF q[i][3] = 0 THEN q[i][2] ELSE 1 ELSE 0) + CountValue(q, i + 1, x)
RECURSIVE Without(_, _, _, _)
Without(q, i, x, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET r == q[i] IN
       Without(q, i + 1, x,
         IF ~In(r, x) THEN Cat(acc, <<r>>)
         ELSE IF r[3] = 0 THEN acc
         ELSE LET k == (x - r[1]) * r[3] IN Cat(Cat(acc, Run(r[1], k, r[3])), Run(x + r[3], r[2] - k - 1, r[3])))
RECURSIVE Unique(_, _, _)
Unique(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET r == IF q[i][3] = 0 THEN <<q[i][1], 1, 0>> ELSE q[i]
           l == acc[Len(acc)]
           dup == acc # <<>> /\ l[1] + (l[2] - 1) * l[3] = r[1] IN
       Unique(q, i + 1, IF ~dup THEN Cat(acc, <<r>>) ELSE Cat(acc, Run(r[1] + r[3], r[2] - 1, r[3])))

\* ---------------------------------------------------------------- state
N(v) == Size(vec[v])
Chunk(p) == p \div BS
HeldBy(v) == {Chunk(ref[k][2]) : k \in {k \in Refs : ref[k] # <<>> /\ ref[k][1] = v}}
             \cup {Chunk(itr[k][2]) : k \in {k \in Its : itr[k] # <<>> /\ itr[k][1] = v /\ itr[k][3]}}
Free(v) == {k \in Refs : ref[k] # <<>> /\ ref[k][1] = v} = {} /\ {k \in Its : itr[k] # <<>> /\ itr[k][1] = v} = {}

Init == /\ vec = [v \in Vec |-> <<>>] /\ ref = [k \in Refs |-> <<>>] /\ itr = [k \in Its |-> <<>>]
        /\ maxpin = [v \in Vec |-> 0] /\ last = <<"start", <<>>, <<>> >>

\* largest number of chunks held at the same time, after the step; a plain operation holds up to 2
Pins == maxpin' = [v \in Vec |-> LET h == Cardinality({Chunk(ref'[k][2]) : k \in {k \in Refs : ref'[k] # <<>> /\ ref'[k][1] = v}}
                                       \cup {Chunk(itr'[k][2]) : k \in {k \in Its : itr'[k] # <<>> /\ itr'[k][1] = v /\ itr'[k][3]}})
                                 IN IF h > maxpin[v] THEN h ELSE maxpin[v]]
Out(name, args, runs) == last' = <<name, args, runs>>
Hold == UNCHANGED <<ref, itr, maxpin>>
Quiet == UNCHANGED <<vec, ref, itr, maxpin>>

\* ---------------------------------------------------------------- operations
\* how: variants of the same operation in the interface
Push(v, how, a, n, s) == /\ vec' = [vec EXCEPT ![v] = Cat(@, Run(a, n, s))] /\ Out("push", <<v, how, a, n, s>>, <<>>) /\ Hold
Pop(v, n) == /\ Free(v) /\ n <= N(v) /\ vec' = [vec EXCEPT ![v] = Take(@, N(v) - n)] /\ Out("pop", <<v, n>>, <<>>) /\ Hold
Resize(v, how, n, x) ==
  /\ IF n < N(v) THEN Free(v) ELSE TRUE
  /\ vec' = [vec EXCEPT ![v] = IF n <= N(v) THEN Take(@, n) ELSE Cat(@, Run(IF how = 0 THEN 0 ELSE x, n - N(v), 0))]
  /\ Out("resize", <<v, how, n, x>>, <<>>) /\ Hold
Clear(v) == Free(v) /\ vec' = [vec EXCEPT ![v] = <<>>] /\ Out("clear", <<v>>, <<>>) /\ Hold
InsertRun(v, how, p, a, n, s) ==
  /\ p <= N(v) /\ vec' = [vec EXCEPT ![v] = Replace(@, p, p, Run(a, n, s))] /\ Out("insert", <<v, how, p, a, n, s>>, <<>>) /\ Hold
InsertFrom(v, p, w, b, e) ==
  /\ v # w /\ p <= N(v) /\ e <= N(w) /\ vec' = [vec EXCEPT ![v] = Replace(@, p, p, Slice(vec[w], b, e))]
  /\ Out("insfrom", <<v, p, w, b, e>>, <<>>) /\ Hold
Erase(v, how, p, e) == /\ Free(v) /\ p <= e /\ e <= N(v) /\ vec' = [vec EXCEPT ![v] = Replace(@, p, e, <<>>)] /\ Out("erase", <<v, how, p, e>>, <<>>) /\ Hold
Assign(v, how, a, n, s) == /\ (IF n >= N(v) THEN TRUE ELSE Free(v)) /\ vec' = [vec EXCEPT ![v] = Run(a, n, s)] /\ Out("assign", <<v, how, a, n, s>>, <<>>) /\ Hold
\* a vector built from a count, a value or a range replaces v
Make(v, how, a, n, s) == /\ Free(v) /\ vec' = [vec EXCEPT ![v] = IF how = 0 THEN Run(0, n, 0) ELSE Run(a, n, s)] /\ Out("make", <<v, how, a, n, s>>, <<>>) /\ Hold
AssignFrom(v, how, w, b, e) ==
  /\ v # w /\ (IF e - b >= N(v) THEN TRUE ELSE Free(v)) /\ e <= N(w) /\ vec' = [vec EXCEPT ![v] = Slice(vec[w], b, e)]
  /\ Out("asgfrom", <<v, how, w, b, e>>, <<>>) /\ Hold
Set(v, how, p, x) == p < N(v) /\ vec' = [vec EXCEPT ![v] = Put(@, p, x)] /\ Out("set", <<v, how, p, x>>, <<>>) /\ Hold
\* v[p] = w[q]; in the moving variants (how >= 4) w[q] is then given the value x
SetFrom(v, how, p, w, q, x) ==
  /\ p < N(v) /\ q < N(w)
  /\ IF how >= 4 THEN <<v, p>> # <<w, q>> ELSE TRUE
  /\ LET y == At(vec[w], q) IN
     vec' = IF how >= 4 THEN [[vec EXCEPT ![v] = Put(@, p, y)] EXCEPT ![w] = Put(@, q, x)] ELSE [vec EXCEPT ![v] = Put(@, p, y)]
  /\ Out("setfrom", <<v, how, p, w, q, x>>, <<>>) /\ Hold
Swap(v, how, p, w, q) ==
  /\ p < N(v) /\ q < N(w)
  /\ LET x == At(vec[v], p) y == At(vec[w], q) IN vec' = [[vec EXCEPT ![v] = Put(@, p, y)] EXCEPT ![w] = Put(@, q, x)]
  /\ Out("swap", <<v, how, p, w, q>>, <<>>) /\ Hold
Get(v, how, p) == p < N(v) /\ Quiet /\ Out("get", <<v, how, p, At(vec[v], p)>>, <<>>)
\* references compare as the elements they designate
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Compare(v, how, p, w, q) == p < N(v) /\ q < N(w) /\ Quiet /\ Out("rcmp", <<v, how, p, w, q, Sign(At(vec[v], p), At(vec[w], q))>>, <<>>)
OutOfRange(v, d) == Quiet /\ Out("oob", <<v, N(v) + d>>, <<>>)
\* v becomes a copy of w
Copy(v, how, w) == Free(v) /\ v # w /\ vec' = [vec EXCEPT ![v] = vec[w]] /\ Out("copy", <<v, how, w>>, <<>>) /\ Hold
SelfCopy(v) == Quiet /\ Out("self", <<v>>, <<>>)
\* the contents of w move to v; w is cleared afterwards
Move(v, how, w) == /\ Free(v) /\ Free(w) /\ v # w /\ vec' = [vec EXCEPT ![v] = vec[w], ![w] = <<>>]
                   /\ maxpin' = [maxpin EXCEPT ![v] = maxpin[w], ![w] = maxpin[v]] /\ UNCHANGED <<ref, itr>>
                   /\ Out("move", <<v, how, w>>, <<>>)
\* references follow the contents
Other(x, v, w) == IF x = v THEN w ELSE IF x = w THEN v ELSE x
SwapVec(v, how, w) ==
  /\ v # w /\ vec' = [vec EXCEPT ![v] = vec[w], ![w] = vec[v]]
  /\ ref' = [k \in Refs |-> IF ref[k] = <<>> THEN <<>> ELSE [ref[k] EXCEPT ![1] = Other(@, v, w)]]
  /\ itr' = [k \in Its |-> IF itr[k] = <<>> THEN <<>> ELSE [itr[k] EXCEPT ![1] = Other(@, v, w)]]
  /\ maxpin' = [maxpin EXCEPT ![v] = maxpin[w], ![w] = maxpin[v]]
  /\ Out("swapvec", <<v, how, w>>, <<>>)
\* Bulk visits.  The functor is called for the positions p..e-1 in order, in the opposite order for the
\* backward ones; the call number k (from 0) checks the value and, for the modifying ones, stores a + k.
\* stop < 0: it never stops; end = 1: it returns false in the call number stop, end = 2: it throws there.
Visit(v, how, p, e, stop, end, a, mutable, backward) ==
  LET calls == IF stop < 0 THEN e - p ELSE stop + 1
      from == IF backward THEN e - calls ELSE p
      old == Slice(vec[v], from, from + calls) IN
  /\ p <= e /\ e <= N(v) /\ stop < e - p
  /\ IF mutable THEN Chunk(p)..Chunk(e) \cap HeldBy(v) = {} ELSE TRUE
  /\ vec' = IF mutable THEN [vec EXCEPT ![v] = Replace(@, from, from + calls, IF backward THEN Run(a + calls - 1, calls, -1) ELSE Run(a, calls, 1))] ELSE vec
  /\ Out("visit", <<v, how, p, e, stop, end, a, IF mutable THEN 1 ELSE 0, IF backward THEN 1 ELSE 0, IF stop < 0 THEN calls ELSE stop>>, old)
  /\ Hold
Check(v, how) == Quiet /\ Out("check", <<v, how>>, vec[v])
\* standard algorithms
AReverse(v, p, e) == p <= e /\ e <= N(v) /\ vec' = [vec EXCEPT ![v] = Replace(@, p, e, Reverse(Slice(@, p, e)))] /\ Out("areverse", <<v, p, e>>, <<>>) /\ Hold
ARotate(v, p, m, e) == /\ p <= m /\ m <= e /\ e <= N(v) /\ vec' = [vec EXCEPT ![v] = Replace(@, p, e, Cat(Slice(@, m, e), Slice(@, p, m)))]
                       /\ Out("arotate", <<v, p, m, e>>, <<>>) /\ Hold
AFill(v, p, e, x) == p <= e /\ e <= N(v) /\ vec' = [vec EXCEPT ![v] = Replace(@, p, e, Run(x, e - p, 0))] /\ Out("afill", <<v, p, e, x>>, <<>>) /\ Hold
\* std::copy (how 0) and std::copy_backward (how 1); inside one vector the direction fits the overlap
ACopy(v, how, p, e, w, d) ==
  /\ p <= e /\ e <= N(v) /\ d + (e - p) <= N(w)
  /\ IF v = w THEN IF how = 0 THEN d <= p ELSE d >= p ELSE TRUE
  /\ vec' = [vec EXCEPT ![w] = Replace(@, d, d + (e - p), Slice(vec[v], p, e))]
  /\ Out("acopy", <<v, how, p, e, w, d>>, <<>>) /\ Hold
ASwapRanges(v, p, e, w, d) ==
  /\ p <= e /\ e <= N(v) /\ d + (e - p) <= N(w) /\ IF v = w THEN IF d >= e THEN TRUE ELSE d + (e - p) <= p ELSE TRUE
  /\ LET x == Slice(vec[v], p, e) y == Slice(vec[w], d, d + (e - p)) IN
     vec' = [[vec EXCEPT ![v] = Replace(@, p, e, y)] EXCEPT ![w] = Replace(@, d, d + (e - p), x)]
  /\ Out("aswap", <<v, p, e, w, d>>, <<>>) /\ Hold
ASort(v, how, p, e) == p <= e /\ e <= N(v) /\ vec' = [vec EXCEPT ![v] = Replace(@, p, e, Sorted(Slice(@, p, e)))] /\ Out("asort", <<v, how, p, e>>, <<>>) /\ Hold
AFind(v, how, x) == /\ Quiet /\ LET f == FindValue(vec[v], 1, 0, x) IN Out("afind", <<v, how, x, IF f < 0 THEN N(v) ELSE f, CountValue(vec[v], 1, x)>>, <<>>)
ARemove(v, x) == /\ Free(v) /\ vec' = [vec EXCEPT ![v] = Without(@, 1, x, <<>>)] /\ Out("aremove", <<v, x>>, <<>>) /\ Hold
AUnique(v) == /\ Free(v) /\ vec' = [vec EXCEPT ![v] = Unique(@, 1, <<>>)] /\ Out("aunique", <<v>>, <<>>) /\ Hold
\* references
Ref(k, v, p, const) == /\ ref[k] = <<>> /\ p < N(v) /\ ref' = [ref EXCEPT ![k] = <<v, p, const, 1>>] /\ UNCHANGED <<vec, itr>> /\ Pins
                       /\ Out("ref", <<k, v, p, const, At(vec[v], p)>>, <<>>)
RefGet(k) == /\ ref[k] # <<>> /\ Quiet /\ Out("rget", <<k, At(vec[ref[k][1]], ref[k][2]), ref[k][4]>>, <<>>)
RefSet(k, how, x) == /\ ref[k] # <<>> /\ ref[k][3] = 0 /\ vec' = [vec EXCEPT ![ref[k][1]] = Put(@, ref[k][2], x)]
                     /\ Out("rset", <<k, how, x>>, <<>>) /\ UNCHANGED <<ref, itr, maxpin>>
RefCopy(k, l) == /\ ref[k] = <<>> /\ ref[l] # <<>> /\ ref' = [ref EXCEPT ![k] = ref[l]] /\ UNCHANGED <<vec, itr>> /\ Pins /\ Out("rcopy", <<k, l>>, <<>>)
\* a constant reference now designates what another one designates
RefBind(k, l) == /\ k # l /\ ref[k] # <<>> /\ ref[l] # <<>> /\ ref[k][3] = 1 /\ ref[l][3] = 1 /\ ref' = [ref EXCEPT ![k] = ref[l]] /\ UNCHANGED <<vec, itr>> /\ Pins
                 /\ Out("rbind", <<k, l>>, <<>>)
RefAssign(k, l) == /\ k # l /\ ref[k] # <<>> /\ ref[l] # <<>> /\ ref[k][3] = 0
                   /\ vec' = [vec EXCEPT ![ref[k][1]] = Put(@, ref[k][2], At(vec[ref[l][1]], ref[l][2]))] /\ Hold /\ Out("rassign", <<k, l>>, <<>>)
RefSwap(k, l) == /\ k # l /\ ref[k] # <<>> /\ ref[l] # <<>> /\ ref[k][3] = 0 /\ ref[l][3] = 0
                 /\ LET v == ref[k][1] w == ref[l][1] x == At(vec[v], ref[k][2]) y == At(vec[w], ref[l][2]) IN
                    vec' = [[vec EXCEPT ![v] = Put(@, ref[k][2], y)] EXCEPT ![w] = Put(@, ref[l][2], x)]
                 /\ Hold /\ Out("rswap", <<k, l>>, <<>>)
RefDrop(k) == /\ ref[k] # <<>> /\ ref' = [ref EXCEPT ![k] = <<>>] /\ UNCHANGED <<vec, itr, maxpin>> /\ Out("rdrop", <<k>>, <<>>)
\* iterators
It(k, v, p, how) == /\ itr[k] = <<>> /\ p <= N(v) /\ itr' = [itr EXCEPT ![k] = <<v, p, FALSE>>] /\ UNCHANGED <<vec, ref, maxpin>> /\ Out("it", <<k, v, p, how>>, <<>>)
\* moved inside its chunk it keeps the hold
ItMove(k, d, how) == /\ itr[k] # <<>> /\ itr[k][2] + d \in 0..N(itr[k][1])
                     /\ itr' = [itr EXCEPT ![k] = <<@[1], @[2] + d, @[3] /\ Chunk(@[2]) = Chunk(@[2] + d)>>]
                     /\ UNCHANGED <<vec, ref, maxpin>> /\ Out("imove", <<k, d, how, itr[k][2] + d>>, <<>>)
ItGet(k) == /\ itr[k] # <<>> /\ itr[k][2] < N(itr[k][1]) /\ itr' = [itr EXCEPT ![k][3] = TRUE] /\ UNCHANGED <<vec, ref>> /\ Pins
            /\ Out("iget", <<k, At(vec[itr[k][1]], itr[k][2])>>, <<>>)
ItSet(k, x) == /\ itr[k] # <<>> /\ itr[k][2] < N(itr[k][1]) /\ itr' = [itr EXCEPT ![k][3] = TRUE] /\ UNCHANGED ref /\ Pins
               /\ vec' = [vec EXCEPT ![itr[k][1]] = Put(@, itr[k][2], x)] /\ Out("iset", <<k, x>>, <<>>)
ItDiff(k, l) == /\ itr[k] # <<>> /\ itr[l] # <<>> /\ itr[k][1] = itr[l][1] /\ Quiet /\ Out("idiff", <<k, l, itr[k][2] - itr[l][2]>>, <<>>)
ItDrop(k) == /\ itr[k] # <<>> /\ itr' = [itr EXCEPT ![k] = <<>>] /\ UNCHANGED <<vec, ref, maxpin>> /\ Out("idrop", <<k>>, <<>>)
\* the addresses of held elements may change
Unstable(v) == ref' = [k \in Refs |-> IF ref[k] # <<>> /\ ref[k][1] = v THEN [ref[k] EXCEPT ![4] = 0] ELSE ref[k]]
Shrink(v) == /\ Unstable(v) /\ UNCHANGED <<vec, itr, maxpin>> /\ Out("shrink", <<v>>, <<>>)
\* all the vectors are shrunk: each keeps one full chunk, the last one and the held ones at most
RECURSIVE SumHeld(_)
SumHeld(S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN Cardinality(HeldBy(v)) + SumHeld(S \ {v})
ShrinkAll == /\ ref' = [k \in Refs |-> IF ref[k] # <<>> THEN [ref[k] EXCEPT ![4] = 0] ELSE ref[k]]
             /\ UNCHANGED <<vec, itr, maxpin>> /\ Out("shrinkall", <<0, 2 * Cardinality(Vec) + SumHeld(Vec)>>, <<>>)
\* v is serialized and deserialized into w, which held something else before
Serialize(v, how, w, short) == /\ v # w /\ Free(w) /\ Unstable(v) /\ vec' = [vec EXCEPT ![w] = vec[v]] /\ UNCHANGED <<itr, maxpin>>
                               /\ Out("serial", <<v, how, w, short>>, vec[v])
\* the vectors keep together at most this number of chunks decompressed, plus a constant for each
RECURSIVE SumPins(_)
SumPins(S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN maxpin[v] + SumPins(S \ {v})
Footprint(v) == Quiet /\ Out("foot", <<v, SumPins(Vec)>>, <<>>)
\* w is read from a stream of n records followed by r bytes of an incomplete one
Stream(v, how, a, n, r) == Free(v) /\ vec' = [vec EXCEPT ![v] = Run(a, n, 1)] /\ Out("stream", <<v, how, a, n, r>>, <<>>) /\ Hold

\* The iterator over the records of a stream, a step at a time (RecordIter.tla is the design of its lazy reading): it is
\* at record c of n.  0: record read, 1: to the next record, 2..5: compared with the end, 6: moved to another iterator.
\* Reading and advancing at the end are not allowed: a comparison is made instead.
RecOp(n, c, op) == IF op <= 1 /\ c = n THEN op + 2 ELSE op
RecResult(n, c, op) == CASE op = 0 -> c [] op \in {2, 4} -> IF c = n THEN 1 ELSE 0 [] op \in {3, 5} -> IF c = n THEN 0 ELSE 1 [] OTHER -> 0
RecNext(n, c, op) == IF op = 1 THEN c + 1 ELSE c
RECURSIVE RecPlay(_, _, _, _, _)
RecPlay(n, c, ops, i, acc) ==
  IF i > Len(ops) THEN acc
  ELSE LET op == RecOp(n, c, ops[i]) IN RecPlay(n, RecNext(n, c, op), ops, i + 1, Append(acc, <<op, RecResult(n, c, op), 0>>))
Records(n, r, ops) == Quiet /\ Out("records", <<n, r>>, RecPlay(n, 0, ops, 1, <<>>))

\* ---------------------------------------------------------------- failures (B10)
\* What a failed operation may have touched, from the state before it: <<strong, v, lo, hi, w, lo2, hi2>>.
\* strong: nothing.  Otherwise the elements lo..hi-1 of v and lo2..hi2-1 of w may have any value, and the size of a
\* vector whose interval is unbounded may differ, without going below lo.  The other vectors are unchanged.
Inf == 1000000000
Nothing == <<1, 0, 0, 0, 0, 0, 0>>
Touch(v, lo, hi) == <<0, v, lo, hi, 0, 0, 0>>
Touch2(v, lo, hi, w, lo2, hi2) == <<0, v, lo, hi, w, lo2, hi2>>
Guarantee(o) ==
  LET n == o[1] g == o[2] v == g[1] IN
  CASE n = "push" -> IF g[4] <= 1 THEN Nothing ELSE Touch(v, N(v), Inf)
    [] n = "pop" -> IF g[2] <= 1 THEN Nothing ELSE Touch(v, N(v) - g[2], Inf)
    [] n = "resize" -> Touch(v, IF g[3] < N(v) THEN g[3] ELSE N(v), Inf)
    [] n = "insert" -> IF g[5] = 1 /\ g[3] = N(v) THEN Nothing ELSE Touch(v, g[3], Inf)
    [] n = "insfrom" -> Touch(v, g[2], Inf)
    [] n = "erase" -> Touch(v, g[3], Inf)
    [] n \in {"make"} -> Nothing
    [] n \in {"assign", "asgfrom", "copy", "aremove", "aunique"} -> Touch(v, 0, Inf)
    [] n = "set" -> Touch(v, g[3], g[3] + 1)
    [] n \in {"setfrom", "swap"} -> Touch2(v, g[3], g[3] + 1, g[4], g[5], g[5] + 1)
    [] n = "visit" -> IF g[8] = 1 THEN Touch(v, g[3], g[4]) ELSE Nothing
    [] n = "areverse" -> Touch(v, g[2], g[3])
    [] n = "arotate" -> Touch(v, g[2], g[4])
    [] n = "afill" -> Touch(v, g[2], g[3])
    [] n = "acopy" -> Touch(g[5], g[6], g[6] + g[4] - g[3])
    [] n = "aswap" -> Touch2(v, g[2], g[3], g[4], g[5], g[5] + g[3] - g[2])
    [] n = "asort" -> Touch(v, g[3], g[4])
    [] n = "serial" -> Touch(g[3], 0, Inf)
    [] OTHER -> Nothing
=============================================================================
