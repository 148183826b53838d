------------------------------ MODULE MCRewMany ------------------------------
EXTENDS Props, Base
(* rewards in more assets than fit on any page *)
MUsers == {"u1", "u2", "u3"}
Ds == {"d101", "d102", "d103", "d104", "d105", "d106", "d107", "d108", "d109", "d110", "d111", "d112", "d113", "d114", "d115", "d116", "d117", "d118", "d119", "d120", "d121", "d122", "d123", "d124", "d125", "d126", "d127", "d128", "d129", "d130", "d131", "d132", "d133"}
MAssets == {"dao", "tok", "tokb"} \cup Ds
MRew == Ds \cup {"tok", "tokb"}
D(i) == "d" \o ToString(100 + i)
N == 33
Rich == [u3 |-> 8400, tre |-> 1680]
RECURSIVE Bals(_)
Bals(i) == IF i = 0 THEN [dao |-> [u1 |-> 4, u2 |-> 3, u3 |-> 1], tok |-> Rich, tokb |-> Rich] ELSE Bals(i - 1) @@ (D(i) :> Rich)
Ws == [i \in 1..N |-> D(i)] \o <<"tok", "tokb">>
All == [i \in 1..N |-> <<D(i), 840>>]
C(k, l) == [Cfg0 EXCEPT !.kind = k, !.white = Ws, !.bal = Bals(N), !.gov = Gov(50, 50, -1, 1, -1, FALSE),
           !.setup = <<OStake("u1", 2), OStake("u2", 1), [op |-> "dist2", by |-> "u3", funds |-> All], ODist("u3", "tok", 840), ODist("u3", "tokb", 840)>> \o l]
MCfgs == << C("denom", <<>>), [C("multisig", <<>>) EXCEPT !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.setup = <<[op |-> "dist2", by |-> "u3", funds |-> All], ODist("u3", "tokb", 840)>>],
            C("token", <<OUnstake("u1", 2), [op |-> "dist2", by |-> "u3", funds |-> All]>>) >>
Change(x) == IF Kind(x) = "multisig" THEN {OEdit("gc", "mem", << <<"u1", 0>>, <<"u2", 2>> >>), OSet("gc", "mem", << <<"u3", 2>> >>)}
             ELSE {OStake("u1", 2), OUnstake("u2", 1), OStake("u3", 1)}
MOps(x) == Change(x) \cup {OMinw("gc", 2), OClaimRew("u1", "u1", Ws), OClaimRew("u2", "u2", Ws), OClaimRew("u2", "u2", <<D(33), D(1), "tokb", D(33)>>),
             [op |-> "dist2", by |-> "u3", funds |-> All], [op |-> "tredist", by |-> "gc", funds |-> All \o << <<"tok", 840>>, <<"tokb", 840>> >>],
             [op |-> "spend", by |-> "gc", to |-> "u2", assets |-> All \o << <<"tok", 1>>, <<"tokb", 1680>> >>], [op |-> "spend", by |-> "gc", to |-> "u1", assets |-> All \o << <<"tok", 1>>, <<"tokb", 1681>> >>]}
=============================================================================
