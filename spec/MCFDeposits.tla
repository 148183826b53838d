------------------------------ MODULE MCFDeposits ------------------------------
EXTENDS MCDeposits
(* the same histories with every operation the facade prepares submitted through it *)
FCfgs == [i \in 1..Len(MCfgs) |-> [MCfgs[i] EXCEPT !.via = IF i % 2 = 0 THEN "tre" ELSE "ent"]]
=============================================================================
