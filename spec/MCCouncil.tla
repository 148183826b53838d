------------------------------ MODULE MCCouncil ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* council proposals: seats, changes of council, action lists, independence of membership weight *)
M(n) == AMeta([name |-> n])
B == [dao |-> [u1 |-> 3, u2 |-> 3, u3 |-> 3], cash |-> [tre |-> 5]]
C == Council(<<"u1", "u2">>, 50, 50, <<"update_metadata", "update_asset_whitelist">>)
D(kind) == [Cfg0 EXCEPT !.kind = kind, !.bal = B, !.council = C, !.gov = Gov(50, 50, 40, 3, -1, TRUE)]
(* the council is about to be replaced or dissolved, its proposal still open *)
Ends(c) == [D("denom") EXCEPT !.setup = <<OStake("u1", 2), OStake("u3", 1), OTick(0), OCPropose("u1", <<M("n1")>>), OPropose("u1", <<ACouncil(c)>>), OVote("u1", 2, 0), OTick(1)>>]
MCfgs == << [D("denom") EXCEPT !.setup = <<OStake("u1", 2), OStake("u3", 1), OCPropose("u1", <<M("n1")>>)>>],
            [D("multisig") EXCEPT !.members = << <<"u1", 3>>, <<"u3", 2>> >>, !.gov = Gov(50, 50, -1, 3, -1, FALSE), !.setup = <<OCPropose("u2", <<M("n1")>>)>>],
            Ends(NoCouncil), Ends(Council(<<"u3", "u2">>, 100, 50, <<"update_asset_whitelist">>)) >>
Pass(acts) == [op |-> "seq", ops |-> <<OPropose("u1", acts)>>]
MOps(x) ==
  {OCVote(u, 1, o) : u \in MUsers, o \in 0..3}
  \cup {OVote("u1", 1, 0), OVote("u3", 1, 1)}
  \cup {OExec("u3", 1), OExec("u1", 2)}
  \cup {OEdit("gc", "cou", << <<"u3", 1>> >>), OEdit("gc", "cou", << <<"u2", 0>> >>), OSet("gc", "cou", << <<"u2", 1>>, <<"u3", 1>> >>), OEdit("u1", "cou", << <<"u1", 5>> >>)}
  \cup (IF Len(x.props) < 2 THEN {OCPropose("u1", <<AWhite(<<"cash">>, <<>>)>>), OCPropose("u3", <<M("n2")>>)} ELSE {})
  \cup (IF Kind(x) = "denom" THEN {OStake("u1", 1), OUnstake("u1", 2), OUnstake("u3", 1)} ELSE {OEdit("gc", "mem", << <<"u1", 0>> >>), OEdit("gc", "mem", << <<"u2", 7>> >>)})
  \cup (IF x.t < 3 THEN {OTick(x.t + 1), OTick(3)} ELSE {})
=============================================================================
