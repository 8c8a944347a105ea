------------------------------ MODULE MC_Huge ------------------------------
(* The long arithmetic agrees with Frame on all small sizes, element sizes and parameters explored. *)
EXTENDS Huge
VARIABLES n, bt, p
Ns == {0, 1, 2, 255, 256, 1023, 65535, 65536, 65537, 65791, 65792, 65793, 131071, 131072, 131073, 262144, 1000000, 16777215, 16777216, 123456789, 1000000000, 1006632960}
Init == n \in Ns /\ bt \in {1, 2, 3, 4, 7, 8, 12, 16, 255, 1000, 20000, 32767} /\ p \in {[level |-> l, blk |-> b] : l \in {0, 1, 2, 5, 9}, b \in {NOSHIFT, 0, 1, 4, 9}}
Next == UNCHANGED <<n, bt, p>>
Spec == Init /\ [][Next]_<<n, bt, p>>
Agrees == Same(n, p, bt)
=============================================================================
