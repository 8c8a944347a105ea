---------------------------- MODULE Gen_CVector ----------------------------
(* Random histories of the vector model for conformance runs.                *)
EXTENDS CVector, Json
CONSTANTS Steps, Focus, MaxChunks
VARIABLE k
gvars == <<vec, ref, itr, maxpin, last, k>>

MaxLen == BS * MaxChunks
Pick(q) == q[RandomElement(1..Len(q))]
Rnd(n) == IF n <= 0 THEN 0 ELSE RandomElement(0..(n - 1))
Value(x) == IF Rnd(4) = 0 THEN Rnd(4) ELSE Rnd(30000)
\* a position of v, rather near its ends and the chunk boundaries
Near(v) == LET r == Rnd(8) c == BS * Rnd(N(v) \div BS + 1) + Pick(<<-2, -1, -1, 0, 0, 1, 2>>) IN
           IF r <= 1 THEN N(v) - 1 - Rnd(3) ELSE IF r = 2 THEN Rnd(3) ELSE IF r <= 5 THEN c ELSE Rnd(N(v))
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Pos(v) == Clip(Near(v), 0, N(v) - 1)      \* an element (N(v) > 0)
Gap(v) == Clip(Near(v) + Rnd(2), 0, N(v)) \* a place between elements
Far(v) == IF N(v) <= 2 * BS THEN Pos(v) ELSE Rnd(N(v))
Count(x) == LET r == Rnd(16) IN
  IF r <= 3 THEN 1 ELSE IF r <= 6 THEN Rnd(8) ELSE IF r <= 8 THEN Rnd(60) ELSE IF r <= 11 THEN BS + Pick(<<-2, -1, 0, 1, 2>>)
  ELSE IF r = 12 THEN 2 * BS + Pick(<<-1, 0, 1>>) ELSE IF r = 13 THEN Rnd(IF MaxChunks > 12 THEN MaxLen \div 2 ELSE 4 * BS) ELSE Rnd(BS)
Step1(x) == Pick(<<1, 1, 1, 1, 0, 0, -1>>)
\* the values stay positive
First(st) == IF st < 0 THEN MaxLen + Value(1) ELSE Value(1)
\* to the end of a chunk
Fill(v) == LET m == N(v) % BS IN Clip(Pick(<<BS - m, BS - m, BS - m - 1, BS - m + 1, 2 * BS - m>>), 0, 3 * BS)
Grow(v, x) == Clip(IF Rnd(3) = 0 THEN Fill(v) ELSE Count(x), 0, MaxLen - N(v))
Less(v) == Clip(LET m == N(v) % BS IN Pick(<<m, m, m + 1, m - 1, 1, 1, 2, 3, Count(1), m + BS, m + BS + 1>>), 0, N(v))
V(x) == RandomElement(Vec)
NonEmpty == {v \in Vec : vec[v] # <<>>}
A(v, p) == Clip(p, 0, N(v))
Span(v, p) == A(v, p + Pick(<<0, 1, 1, 2, 5, 30, BS - 1, BS, BS + 1, Rnd(3 * BS), N(v), N(v), Rnd(N(v))>>))

DoAny(v) == IF vec[v] = <<>> THEN (\E st \in {Step1(1)} : Push(v, Rnd(5), First(st), Grow(v, 1), st)) ELSE Check(v, Rnd(9))
DoPush == \E v \in {V(1)} : \E n \in {Grow(v, 1)} : (\E st \in {Step1(1)} : Push(v, Rnd(5), First(st), n, st))
DoPushSmall == \E v \in {V(1)} : IF N(v) >= MaxLen THEN (IF Free(v) THEN Clear(v) ELSE DoAny(v)) ELSE Push(v, Rnd(5), Value(1), 1, 1)
DoPop == \E v \in {V(1)} : IF Free(v) /\ vec[v] # <<>> THEN Pop(v, Less(v)) ELSE DoAny(v)
DoResize == \E v \in {V(1)} : \E n \in {IF Rnd(2) = 0 THEN N(v) - Less(v) ELSE N(v) + Grow(v, 1)} :
              IF n < N(v) /\ ~Free(v) THEN DoAny(v) ELSE Resize(v, Rnd(2), n, Value(1))
DoClear == \E v \in {V(1)} : IF Free(v) THEN Clear(v) ELSE DoAny(v)
DoInsert == \E v \in {V(1)} : \E n \in {Clip(Pick(<<1, 1, 1, 1, 2, 3, 0, Rnd(40), BS, Rnd(BS)>>), 0, MaxLen - N(v))} :
              \E st \in {Step1(1)} : InsertRun(v, Rnd(9), Gap(v), First(st), n, st)
DoInsFrom == \E v \in {V(1)}, w \in {V(2)} : IF v = w THEN DoAny(v) ELSE \E b \in {Gap(w)} : \E e \in {Span(w, b)} :
              IF N(v) + (e - b) > MaxLen THEN DoAny(v) ELSE InsertFrom(v, Gap(v), w, b, e)
DoErase == \E v \in {V(1)} : IF ~Free(v) \/ vec[v] = <<>> THEN DoAny(v)
             ELSE \E p \in {Gap(v)} : \E e \in {A(v, p + Pick(<<0, 1, 1, 1, 2, 20, BS, Rnd(BS), Rnd(3 * BS)>>))} : Erase(v, Rnd(3), p, e)
DoAssign == \E v \in {V(1)} : \E n \in {Clip(IF Rnd(2) = 0 THEN Count(1) ELSE N(v) + Pick(<<-1, 0, 0, 1, 2, BS>>), 0, MaxLen)} :
              IF ~Free(v) /\ n < N(v) THEN DoAny(v) ELSE \E st \in {Step1(1)} : IF Free(v) /\ Rnd(4) = 0 THEN Make(v, Rnd(5), First(st), n, st) ELSE Assign(v, Rnd(5), First(st), n, st)
DoAsgFrom == \E v \in {V(1)}, w \in {V(2)} : \E b \in {Gap(w)} : \E e \in {Span(w, b)} :
              IF v = w \/ (~Free(v) /\ e - b < N(v)) THEN DoAny(v) ELSE AssignFrom(v, Rnd(2), w, b, e)
DoSet == \E v \in {V(1)} : IF vec[v] = <<>> THEN DoAny(v) ELSE Set(v, Rnd(10), IF Rnd(2) = 0 THEN Pos(v) ELSE Far(v), Value(1))
DoSetFrom == \E v \in {V(1)}, w \in {V(2)} : IF vec[v] = <<>> \/ vec[w] = <<>> THEN DoAny(v)
              ELSE \E p \in {Far(v)}, q \in {IF Rnd(4) = 0 THEN Pos(w) ELSE Far(w)}, h \in {Rnd(6)} : SetFrom(v, IF v = w /\ p = q THEN 0 ELSE h, p, w, q, Value(1))
DoSwap == \E v \in {V(1)}, w \in {V(2)} : IF vec[v] = <<>> \/ vec[w] = <<>> THEN DoAny(v) ELSE Swap(v, Rnd(4), Far(v), w, Far(w))
DoCompare(v) == \E w \in {IF vec[V(2)] = <<>> THEN v ELSE V(2)}, p \in {Far(v)} : \E u \in {IF vec[w] = <<>> \/ Rnd(3) = 0 THEN v ELSE w} :
                Compare(v, Rnd(6), p, u, IF u = v /\ Rnd(3) = 0 THEN p ELSE IF u = v /\ Rnd(2) = 0 THEN (IF p > 0 THEN p - 1 ELSE p) ELSE Far(u))
DoGet == \E v \in {V(1)} : IF vec[v] = <<>> THEN DoAny(v) ELSE IF Rnd(6) = 0 THEN DoCompare(v) ELSE Get(v, Rnd(12), IF Rnd(2) = 0 THEN Pos(v) ELSE Far(v))
DoOob == \E v \in {V(1)} : OutOfRange(v, Pick(<<0, 0, 1, 255, 100000>>))
DoCopy == \E v \in {V(1)}, w \in {V(2)} : IF ~Free(v) THEN DoAny(v) ELSE IF v = w THEN SelfCopy(v) ELSE Copy(v, Rnd(4), w)
DoMove == \E v \in {V(1)}, w \in {V(2)} : IF (v = w) \/ ~Free(v) \/ ~Free(w) THEN DoAny(v) ELSE Move(v, Rnd(4), w)
DoSwapVec == \E v \in {V(1)}, w \in {V(2)} : IF v = w THEN DoAny(v) ELSE SwapVec(v, Rnd(2), w)
DoVisit == \E v \in {V(1)} : \E p \in {Gap(v)} : \E e \in {Span(v, p)} : \E m \in {Rnd(2)} :
              \E stop \in {IF e = p \/ Rnd(3) # 0 THEN -1 ELSE Clip(Pick(<<0, 1, Rnd(e - p), BS - 1, BS, e - p - 1>>), 0, e - p - 1)} :
              \E end \in {IF stop < 0 THEN 0 ELSE 1 + Rnd(2)} :
              Visit(v, Rnd(4), p, e, stop, end, Value(1), m = 1 /\ Chunk(p)..Chunk(e) \cap HeldBy(v) = {}, Rnd(2) = 0)
DoCheck == \E v \in {V(1)} : Check(v, Rnd(9))
DoAlgo == \E v \in {V(1)}, w \in {V(2)}, r \in {Rnd(13)} : IF vec[v] = <<>> THEN DoAny(v) ELSE
   \E p \in {Gap(v)} : \E e \in {Span(v, p)} : \E m \in {p + Rnd(e - p + 1)}, d \in {Gap(w)} :
   CASE r = 0 -> AReverse(v, p, e)
     [] r = 1 -> ARotate(v, p, m, e)
     [] r = 2 -> AFill(v, p, e, Value(1))
     [] r \in {3, 4} -> \E e2 \in {A(v, p + Clip(e - p, 0, N(w) - d))} :
                 IF v # w THEN ACopy(v, r - 3, p, e2, w, d) ELSE ACopy(v, IF d <= p THEN 0 ELSE 1, p, e2, w, d)
     [] r = 5 -> \E e2 \in {A(v, p + Clip(e - p, 0, N(w) - d))} :
                 IF v # w \/ d >= e2 \/ d + (e2 - p) <= p THEN ASwapRanges(v, p, e2, w, d) ELSE DoAny(v)
     [] r \in {6, 7} -> ASort(v, Rnd(4), p, IF e - p > 600 THEN p + 600 ELSE e)
     [] r \in {8, 9} -> AFind(v, Rnd(3), IF Rnd(2) = 0 THEN Value(1) ELSE At(vec[v], Far(v)))
     [] r = 10 -> IF Free(v) THEN ARemove(v, At(vec[v], Far(v))) ELSE DoAny(v)
     [] r = 11 -> IF Free(v) THEN AUnique(v) ELSE DoAny(v)
     [] OTHER -> AReverse(v, p, e)
DoRef == \E s \in {RandomElement(Refs)}, t \in {RandomElement(Refs)}, r \in {Rnd(12)} :
   IF ref[s] = <<>> THEN (IF NonEmpty = {} THEN DoPush ELSE IF ref[t] # <<>> /\ r < 3 THEN RefCopy(s, t) ELSE \E v \in {RandomElement(NonEmpty)} : Ref(s, v, Far(v), Rnd(2)))
   ELSE CASE r <= 3 -> RefGet(s)
          [] r <= 5 -> IF ref[s][3] = 0 THEN RefSet(s, Rnd(3), Value(1)) ELSE RefGet(s)
          [] r <= 7 -> IF ref[t] = <<>> \/ s = t THEN RefGet(s) ELSE IF ref[s][3] = 1 /\ ref[t][3] = 1 THEN RefBind(s, t)
                       ELSE IF ref[s][3] = 0 THEN RefAssign(s, t) ELSE RefGet(s)
          [] r = 8 -> IF ref[t] = <<>> \/ s = t \/ ref[s][3] = 1 \/ ref[t][3] = 1 THEN RefGet(s) ELSE RefSwap(s, t)
          [] OTHER -> RefDrop(s)
DoIt == \E s \in {RandomElement(Its)}, t \in {RandomElement(Its)}, r \in {Rnd(12)} :
   IF itr[s] = <<>> THEN (IF NonEmpty = {} THEN DoPush ELSE \E v \in {RandomElement(NonEmpty)} : It(s, v, IF Rnd(6) = 0 THEN N(v) ELSE Far(v), Rnd(3)))
   ELSE LET n == N(itr[s][1]) p == itr[s][2] IN
        CASE r <= 4 -> \E d \in {Pick(<<-p, 1, 1, 1, 1, -1, -1, 2, -2, BS, -BS, Rnd(300), -Rnd(300), n - p>>)} : ItMove(s, Clip(d, -p, n - p), Rnd(2))
          [] r <= 7 -> IF p < n THEN ItGet(s) ELSE ItMove(s, -Rnd(p + 1), 0)
          [] r <= 9 -> IF p < n THEN ItSet(s, Value(1)) ELSE ItDrop(s)
          [] r = 10 -> IF itr[t] # <<>> /\ itr[t][1] = itr[s][1] THEN ItDiff(s, t) ELSE ItDrop(s)
          [] OTHER -> ItDrop(s)
DoDrop == IF \E s \in Refs : ref[s] # <<>> THEN \E s \in {RandomElement({s \in Refs : ref[s] # <<>>})} : RefDrop(s)
          ELSE IF \E s \in Its : itr[s] # <<>> THEN \E s \in {RandomElement({s \in Its : itr[s] # <<>>})} : ItDrop(s) ELSE DoGet
DoShrink == \E v \in {V(1)} : IF Rnd(3) = 0 THEN ShrinkAll ELSE Shrink(v)
DoSerial == \E v \in {V(1)}, w \in {V(2)} : IF v = w \/ ~Free(w) THEN DoAny(v) ELSE Serialize(v, Rnd(4), w, Pick(<<0, 0, 1, 2, 5, 12, 1000>>))
DoFoot == \E v \in {V(1)} : Footprint(v)
DoRecords == \E n \in {Pick(<<0, 1, 2, 3, 5, 8>>)}, r \in {Rnd(9)}, ops \in {TLCEval([i \in 1..(1 + Rnd(24)) |-> Pick(<<0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 3, 4, 5, 6>>)])} : Records(n, r, ops)
DoStream == \E v \in {V(1)} : IF Rnd(3) = 0 THEN DoRecords ELSE IF ~Free(v) THEN DoAny(v) ELSE Stream(v, Rnd(4), Value(1), Clip(Count(1), 0, MaxLen), Rnd(9))

\* push pop resize clear insert insfrom erase assign asgfrom set setfrom swap get oob copy move swapvec visit check algo ref it drop shrink serial foot stream small
Weights == CASE Focus = "all"   -> <<10, 5, 4, 1, 6, 3, 5, 4, 3, 6, 3, 3, 6, 1, 3, 2, 2, 5, 8, 9, 0, 4, 1, 2, 2, 1, 0, 3>>
             [] Focus = "mod"   -> <<9, 1, 2, 0, 1, 0, 1, 1, 1, 16, 6, 6, 12, 0, 2, 1, 1, 8, 10, 4, 6, 4, 2, 3, 2, 1, 0, 1>>
             [] Focus = "ref"   -> <<8, 1, 1, 0, 1, 0, 1, 1, 0, 4, 1, 1, 12, 0, 1, 0, 1, 5, 5, 2, 24, 12, 4, 3, 2, 2, 0, 8>>
             [] Focus = "visit" -> <<9, 2, 2, 1, 1, 1, 2, 1, 1, 3, 0, 0, 5, 0, 1, 1, 1, 52, 6, 1, 3, 0, 2, 2, 2, 1, 0, 1>>
             [] Focus = "serial" -> <<12, 4, 4, 1, 2, 1, 3, 2, 1, 6, 1, 1, 6, 0, 2, 1, 1, 4, 6, 2, 3, 1, 3, 4, 26, 1, 0, 3>>
             [] Focus = "life"  -> <<10, 8, 6, 4, 6, 3, 8, 5, 3, 3, 3, 2, 4, 0, 5, 5, 2, 3, 4, 7, 0, 1, 1, 4, 3, 1, 0, 2>>
             [] Focus = "fail"  -> <<14, 5, 6, 1, 7, 3, 6, 5, 3, 6, 4, 4, 6, 0, 6, 3, 1, 7, 3, 12, 0, 0, 0, 4, 4, 1, 0, 14>>
             [] Focus = "cache" -> <<20, 2, 2, 0, 0, 0, 1, 1, 0, 8, 2, 2, 20, 0, 1, 0, 0, 6, 4, 2, 10, 4, 5, 3, 1, 8, 0, 1>>
             [] OTHER           -> <<4, 2, 1, 1, 0, 0, 1, 0, 0, 2, 0, 0, 3, 0, 1, 1, 1, 2, 10, 1, 0, 0, 0, 1, 1, 0, 60, 1>>
RECURSIVE Acc(_, _)
Acc(q, i) == IF i = 0 THEN 0 ELSE q[i] + Acc(q, i - 1)
Total == Acc(Weights, Len(Weights))
RECURSIVE Which(_, _, _)
Which(q, i, r) == IF r < q[i] THEN i ELSE Which(q, i + 1, r - q[i])
Step == \E r \in {Which(Weights, 1, Rnd(Total))} :
  CASE r = 1 -> DoPush [] r = 2 -> DoPop [] r = 3 -> DoResize [] r = 4 -> DoClear [] r = 5 -> DoInsert [] r = 6 -> DoInsFrom
    [] r = 7 -> DoErase [] r = 8 -> DoAssign [] r = 9 -> DoAsgFrom [] r = 10 -> DoSet [] r = 11 -> DoSetFrom [] r = 12 -> DoSwap
    [] r = 13 -> DoGet [] r = 14 -> DoOob [] r = 15 -> DoCopy [] r = 16 -> DoMove [] r = 17 -> DoSwapVec [] r = 18 -> DoVisit
    [] r = 19 -> DoCheck [] r = 20 -> DoAlgo [] r = 21 -> DoRef [] r = 22 -> DoIt [] r = 23 -> DoDrop [] r = 24 -> DoShrink
    [] r = 25 -> DoSerial [] r = 26 -> DoFoot [] r = 27 -> DoStream [] OTHER -> DoPushSmall
Fresh == /\ vec' = [v \in Vec |-> <<>>] /\ ref' = [s \in Refs |-> <<>>] /\ itr' = [s \in Its |-> <<>>]
         /\ maxpin' = [v \in Vec |-> 0] /\ last' = <<"start", <<>>, <<>> >>
\* the last operations of a history release the references and compare the contents
Finish == IF \E s \in Refs : ref[s] # <<>> THEN \E s \in {RandomElement({s \in Refs : ref[s] # <<>>})} : RefDrop(s)
          ELSE IF \E s \in Its : itr[s] # <<>> THEN \E s \in {RandomElement({s \in Its : itr[s] # <<>>})} : ItDrop(s)
          ELSE Check(((Steps - k) % Cardinality(Vec)) + 1, Rnd(9))
Tail0 == Cardinality(Refs) + Cardinality(Its) + Cardinality(Vec)
Sizes == [v \in Vec |-> Size(vec'[v])]
GInit == Init /\ k = 0
GNext == /\ (IF k = 0 THEN Fresh ELSE IF k > Steps - Tail0 THEN Finish ELSE Step)
         /\ k' = (k + 1) % (Steps + 1)
         /\ PrintT("@@" \o ToJson(<<last', Sizes, IF Focus = "fail" /\ k > 0 THEN Guarantee(last') ELSE <<>> >>))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
