----------------------------- MODULE CheckCodec -----------------------------
(* Superblocks written by the encoder of the library (traces.json: sequences *)
(* of <<code, element size, bytes after the inverse of zstd, content>>) have *)
(* the meaning spec/BlockCodec.tla gives them.                               *)
EXTENDS BlockCodec, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, i
vars == <<tr, i>>
Ev == Traces[tr][i]
Init == tr \in 1..Len(Traces) /\ i = 1
Next == \/ i <= Len(Traces[tr]) /\ Superblock(Ev[1], Ev[3], Ev[2], Len(Ev[4])) = Ev[4] /\ i' = i + 1 /\ UNCHANGED tr
        \/ i > Len(Traces[tr]) /\ UNCHANGED vars
TSpec == Init /\ [][Next]_vars
=============================================================================
