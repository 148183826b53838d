------------------------------ MODULE MCSpread ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* every membership change reaches open votes and reward weights *)
Cash == [u2 |-> 8400]
A == <<AMeta([name |-> "n1"])>>
C(k) == [Cfg0 EXCEPT !.kind = k, !.white = <<"cash">>, !.gov = Gov(50, 50, -1, 2, -1, FALSE), !.ul = [k |-> "time", n |-> 2],
                     !.bal = [dao |-> [u1 |-> 4, u2 |-> 2], cash |-> Cash], !.setup = <<OStake("u1", 2), OStake("u2", 1)>>]
N == [C("nft") EXCEPT !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u2"], !.bal = [cash |-> Cash],
        !.setup = <<OStakeNft("u1", "a", "u1"), OStakeNft("u1", "b", "u1"), OStakeNft("u2", "c", "u2")>>]
G == [C("multisig") EXCEPT !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.bal = [cash |-> Cash], !.setup = <<>>]
MCfgs == << C("denom"), [C("token") EXCEPT !.ws = "1000000"], N, G, [C("token") EXCEPT !.minw = 2, !.half = TRUE] >>
Change(x) ==
  CASE Kind(x) \in {"denom", "token"} -> {OStake("u1", 1), OStakeFor("u1", "u2", 1, "dao"), OUnstake("u1", 1), OUnstake("u1", 2), OUnstake("u2", 1)}
         \cup (IF Kind(x) = "token" THEN {[op |-> "addstakes", by |-> "u1", amt |-> 2, list |-> << <<"u1", 1>>, <<"u2", 1>> >>]} ELSE {})
    [] IsNft(x) -> {OStakeNft("u2", "d", "u1"), OUnstakeN("u1", <<"a">>), OUnstakeN("u1", <<"a", "b">>), OUnstakeN("u2", <<"c">>), OUnstakeN("u2", <<"c", "d">>)}
    [] OTHER -> {OEdit("gc", "mem", << <<"u1", 0>> >>), OEdit("gc", "mem", << <<"u1", 1>>, <<"u2", 4>> >>), OSet("gc", "mem", << <<"u2", 2>> >>), OSet("gc", "mem", << <<"u1", 3>>, <<"u2", 1>> >>)}
MOps(x) ==
  Change(x)
  \cup (IF Len(x.props) < 2 THEN {OPropose("u1", A)} ELSE {})
  \cup {OVote(u, i, 0) : u \in Users, i \in 1..Len(x.props)} \cup {OVote("u1", i, 1) : i \in 1..Len(x.props)}
  \cup (IF \E p \in 1..Len(x.props) : TRUE THEN {ODist("u2", "cash", 840)} ELSE {})
  \cup (IF x.t < 2 THEN {OTick(x.t + 1)} ELSE {}) \cup (IF x.t = 0 /\ Len(x.props) > 0 THEN {OTick(2)} ELSE {})
=============================================================================
