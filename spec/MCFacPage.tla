----------------------------- MODULE MCFacPage ------------------------------
(* more DAOs than a page of the listing holds *)
EXTENDS FacReq
MUsers == {"u1"}
Names == <<"P", "Q", "R">>
MCfgs == << [C0 EXCEPT !.setup = [i \in 1..104 |-> New([R0 EXCEPT !.name = Names[1 + (i % 3)]])]], C0 >>
MOps(x) == {New([R0 EXCEPT !.name = "Z"]), New([R0 EXCEPT !.members = <<>>])}
=============================================================================
