--------------------------- MODULE TraceRaces ---------------------------
(* Executions recorded from the code: each event is played on HappensBefore.  An access that conflicts with an access
   of another thread must be ordered after it, otherwise the event has no successor (a data race).
   Events: T n | L t o acq | S t o rel | U t o acq rel | M t o | N t o | C t u | J t u | F t acq rel | A t pair kind.
   The conflicting accesses come in pairs: the two events A with the same pair. *)
EXTENDS HappensBefore, Sequences, Json, TLC
VARIABLES tr, i, s, seen
vars == <<tr, i, s, seen>>
Traces == JsonDeserialize("traces.json")
NThreads(k) == Traces[k][1][2]
Objects(k) == {Traces[k][j][3] : j \in {j \in 2..Len(Traces[k]) : Traces[k][j][1] \in {"L", "S", "U", "M", "N"}}}
TInit == tr \in 1..Len(Traces) /\ i = 2 /\ s = Start(0..(NThreads(tr) - 1), Objects(tr)) /\ seen = <<>>
B(x) == x = 1
Access(t, p, k) ==
   IF p \in DOMAIN seen
   THEN /\ LET e == seen[p] IN e.t # t /\ Conflict(e.k, k) => Before(s, e.t, e.c, t)
        /\ seen' = [q \in DOMAIN seen \ {p} |-> seen[q]]
   ELSE seen' = (p :> [t |-> t, k |-> k, c |-> s.vc[t][t]]) @@ seen
Step(e) ==
   /\ s' = CASE e[1] = "L" -> Load(s, e[2], e[3], B(e[4])) [] e[1] = "S" -> Store(s, e[2], e[3], B(e[4])) [] e[1] = "U" -> Update(s, e[2], e[3], B(e[4]), B(e[5]))
             [] e[1] = "M" -> Lock(s, e[2], e[3]) [] e[1] = "N" -> Unlock(s, e[2], e[3]) [] e[1] = "C" -> Create(s, e[2], e[3]) [] e[1] = "J" -> Ended(s, e[2], e[3])
             [] e[1] = "F" -> Fence(s, e[2], B(e[3]), B(e[4])) [] OTHER -> s
   /\ IF e[1] = "A" THEN Access(e[2], e[3], e[4]) ELSE UNCHANGED seen
TNext ==
   \/ i <= Len(Traces[tr]) /\ Step(Traces[tr][i]) /\ i' = i + 1 /\ UNCHANGED tr
   \/ i > Len(Traces[tr]) /\ seen = <<>> /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
