---------------------------- MODULE MC_Malformed ----------------------------
EXTENDS Malformed
CONSTANT MaxDamage
Bases0 == {Intact(n, ss, 255, 2) : n \in 0..4, ss \in 1..2} \cup {Intact(n, 131072, 0, 2) : n \in 0..2} \cup {Intact(140000, 131072, 0, 2)}
Bases == Bases0 \cup {[g EXCEPT !.raw = TRUE] : g \in Bases0}
Idx(g) == 1..Len(g.sbs)
OneDamage(g) ==
    {SetCode(g, c) : c \in {0, 1, 4, 5, 254, 255}} \cup {SetSize(g, n) : n \in 0..6} \cup (IF g.code = 255 /\ g.form THEN {SetSuper(g, s) : s \in {0, 1, 2, 3, 16777215}} ELSE {})
    \cup {SbCode(g, i, c) : i \in Idx(g), c \in {1, 2}} \cup {SbLen(g, i, d) : i \in Idx(g), d \in {-2, -1, 1, 2, 6, HUGE}}
    \cup {SbBad(g, i) : i \in Idx(g)} \cup {SbCut(g, i) : i \in Idx(g)} \cup {SbLong(g, i) : i \in Idx(g)}
    \cup {Drop(g, i) : i \in Idx(g)} \cup {Twice(g, i) : i \in Idx(g)} \cup {Exchange(g, i, j) : i, j \in Idx(g)} \cup {Trail(g, k) : k \in {1, 6}}
    \cup Cuts(g)
\* damage a frame up to MaxDamage times, then read it
MInit == /\ fr \in Bases /\ bt = 1 /\ cap = 0 /\ phase = "damage" /\ at = 0 /\ left = 0 /\ out = 0 /\ answer = "none"
Damage == phase = "damage" /\ fr.hdr = HeaderLen(IF fr.form THEN 255 ELSE 0) /\ at < MaxDamage /\ fr' \in OneDamage(fr) /\ at' = at + 1 /\ UNCHANGED <<cap, bt, phase, left, out, answer>>
Start == /\ phase = "damage" /\ phase' = "code" /\ cap' \in {3, 6, 150000} /\ at' = 1 /\ left' = Length(fr)
         /\ UNCHANGED <<fr, bt, out, answer>>
MSpec == MInit /\ [][Damage \/ Start \/ RNext]_rvars /\ WF_rvars(Start \/ RNext)
\* every strict prefix of an intact frame with content is refused, and every intact frame is read exactly
Prefixes == \A g \in Bases : (g.size > 0 => \A h \in Cuts(g) : Outcome(h, 1, 1, 200000) = "err")
                             /\ Outcome(g, 1, 1, 200000) = IF g.size = 0 THEN "lax" ELSE "exact"
ASSUME Prefixes
=============================================================================
