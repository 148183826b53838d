------------------------------ MODULE MCFCounM ------------------------------
EXTENDS MCPaging
(* a council larger than a page, and one that becomes larger *)
Al == <<"update_metadata">>
D(n, v) == [C("denom") EXCEPT !.council = Council([i \in 1..n |-> U(i)], 50, 50, Al), !.via = v, !.gov = Gov(50, 50, -1, 2, -1, TRUE), !.setup = <<OStake("u101", 2), OTick(0)>>]
FCfgs == << D(99, "tre"), D(105, "ent") >>
FOps(x) == {OSet("gc", "cou", [i \in 1..n |-> <<U(i), 1>>]) : n \in {3, 105}} \cup {OCPropose("u103", <<AMeta([name |-> "n1"])>>), OCVote("u104", 1, 1)}
=============================================================================
