------------------------------ MODULE MCManyP ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"cash"}
MRew == {"cash"}
(* more proposals than fit on a page *)
A == <<AMeta([name |-> "n1"])>>
N == 105
C(n) == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.bal = [cash |-> [u1 |-> 0]], !.gov = Gov(50, 50, -1, 2, -1, TRUE),
               !.setup = <<OTick(0)>> \o [i \in 1..N |-> OPropose("u1", A)] \o [i \in 1..N |-> OVote("u1", i, i % 2)] \o [i \in 1..n |-> OExec("u2", i + 20)]]
(* every third one the council's *)
RECURSIVE Mixed(_)
Mixed(i) == IF i = 0 THEN <<OTick(0)>> ELSE Mixed(i - 1) \o (IF i % 3 = 0 THEN <<OPropose("u1", A), OVote("u1", i, 1)>> ELSE <<OCPropose("u1", A), OCVote("u1", i, i % 2)>>)
MCfgs == << C(60), C(0), [C(0) EXCEPT !.council = Council(<<"u1", "u2">>, 50, 50, <<"update_metadata">>), !.setup = Mixed(N)] >>
MOps(x) == {OEdit("gc", "mem", << <<"u1", 5>> >>), OSet("gc", "mem", << <<"u2", 3>> >>), OExec("u1", 7), OExec("u1", 96), OPropose("u2", A), OVote("u2", 105, 0), OTick(3)}
           \cup (IF x.cou.on THEN {OEdit("gc", "cou", << <<"u1", 5>> >>), OCVote("u2", 104, 0), OCVote("u1", 1, 3)} ELSE {})
=============================================================================
