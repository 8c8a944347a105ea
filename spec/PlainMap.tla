------------------------------ MODULE PlainMap ------------------------------
(* What a compressed vector is for its user, chunk by chunk.                 *)
EXTENDS Integers, Sequences
CONSTANT Values
VARIABLE map
Init == map = <<>>
Set == \E c \in DOMAIN map, v \in Values : map' = [map EXCEPT ![c] = v]
Add == \E v \in Values : map' = [c \in 1..Len(map) + 1 |-> IF c <= Len(map) THEN map[c] ELSE v]
Spec == Init /\ [][Set \/ Add]_map
=============================================================================
