------------------------------ MODULE MCFOutProp ------------------------------
EXTENDS MCOutProp
(* the executor pays the cross-chain fees the facade works out; the outposts contract has nothing of its own *)
FCfgs == [i \in 1..Len(MCfgs) |-> [MCfgs[i] EXCEPT !.via = IF i % 2 = 0 THEN "tre" ELSE "ent", !.bal = [luna |-> [out |-> IF i = 1 THEN 4 ELSE 2, u1 |-> 40], cash |-> [tre |-> 5]]]]
FOps(x) == {o \in MOps(x) : o.op # "xreply"}
=============================================================================
