----------------------------- MODULE MC_CVecConc -----------------------------
(* Calls of the threads for the model checking of CVecConc: <<kind, first,    *)
(* last chunk>>; 1 read, 2/4 constant, 3/5 modifying visit (4, 5 backward).   *)
EXTENDS CVecConc
TwoA == (1 :> <<<<3, 2, 3>>>>) @@ (2 :> <<<<4, 1, 3>>, <<1, 1, 1>>>>)
TwoB == (1 :> <<<<3, 1, 3>>, <<1, 1, 1>>>>) @@ (2 :> <<<<5, 1, 3>>, <<2, 1, 2>>>>)
ThreeA == (1 :> <<<<3, 2, 3>>>>) @@ (2 :> <<<<4, 3, 3>>>>) @@ (3 :> <<<<5, 1, 1>>>>)
ThreeB == (1 :> <<<<3, 1, 3>>>>) @@ (2 :> <<<<5, 1, 3>>>>) @@ (3 :> <<<<1, 3, 3>>, <<1, 1, 1>>>>)
ThreeC == (1 :> <<<<3, 2, 3>>>>) @@ (2 :> <<<<5, 3, 4>>>>) @@ (3 :> <<<<2, 1, 2>>>>)
=============================================================================
