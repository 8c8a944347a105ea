---------------------------- MODULE MC_BadVector ----------------------------
(* The reader of a vector against the general reader: on frames with the      *)
(* vector's chunk size, whatever the vector refuses the general reader refuses *)
(* or is about to read as other content, and what it delivers as exact is     *)
(* the beginning of the content (bt = 1, chunk = ss).                         *)
EXTENDS BadVector
CONSTANT MaxDamage
Bases == {[Intact(n, ss, 255, 2) EXCEPT !.raw = r] : n \in 0..4, ss \in {1, 2}, r \in BOOLEAN}
Idx(g) == 1..Len(g.sbs)
OneDamage(g) ==
    {SetCode(g, c) : c \in {0, 4, 5, 255}} \cup {SetSize(g, n) : n \in 0..6} \cup {SetSuper(g, s) : s \in {0, 1, 2, 3}}
    \cup {SbCode(g, i, c) : i \in Idx(g), c \in {1, 2}} \cup {SbLen(g, i, d) : i \in Idx(g), d \in {-2, -1, 1, 6, HUGE}}
    \cup {SbBad(g, i) : i \in Idx(g)} \cup {SbCut(g, i) : i \in Idx(g)} \cup {SbLong(g, i) : i \in Idx(g)}
    \cup {Drop(g, i) : i \in Idx(g)} \cup {Twice(g, i) : i \in Idx(g)} \cup {Exchange(g, i, j) : i, j \in Idx(g)} \cup {Trail(g, k) : k \in {1, 6}}
    \cup Cuts(g)
VARIABLE chunk
vars == <<fr, chunk, at, cap, bt, phase, left, out, answer>>
Init == fr \in Bases /\ chunk = fr.ss /\ at = 0 /\ bt = 1 /\ cap = 0 /\ phase = "damage" /\ left = 0 /\ out = 0 /\ answer = "none"
Next == fr.hdr = 12 /\ at < MaxDamage /\ fr' \in OneDamage(fr) /\ at' = at + 1 /\ UNCHANGED <<chunk, cap, bt, phase, left, out, answer>>
VSpec == Init /\ [][Next]_vars
V == VOutcome(fr, 1, chunk)
G == Outcome(fr, 1, 1, 1000)
Sound == /\ V \in {"err", "exact", "any"}
         /\ (V = "exact" => G \in {"exact", "lax"})               \* what is delivered is the content
         /\ (G = "exact" /\ fr.ss = chunk => V = "exact")         \* nothing valid is refused
         /\ (V = "err" => G = "err" \/ fr.ss # chunk \/ fr.size = 0 \/ fr.code # 255)
Safe == \A h \in Cuts(fr) : at = 0 /\ fr.size > 0 => VOutcome(h, 1, chunk) = "err"
=============================================================================
