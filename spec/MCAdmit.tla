------------------------------ MODULE MCAdmit ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash", "tok"}
MRew == {"cash"}
(* the entry rules for proposals: proposer, deposit, number and validity of actions, restriction *)
M(n) == AMeta([name |-> n])
Rep(n) == [i \in 1..n |-> M("n1")]
B == [dao |-> [u1 |-> 5, u2 |-> 5], cash |-> [u2 |-> 5], tok |-> [u2 |-> 5]]
C == Council(<<"u1">>, 50, 50, <<"default">>)
N4 == [a |-> "u1", b |-> "u2", c |-> "u2", d |-> "u3"]
K(kind, mindep) == [Cfg0 EXCEPT !.kind = kind, !.gov = Gov(50, 50, -1, 2, mindep, FALSE)]
MCfgs == << [K("denom", -1) EXCEPT !.bal = B, !.setup = <<OStake("u1", 1)>>],
            [K("denom", 2) EXCEPT !.bal = B, !.setup = <<OStake("u1", 1)>>, !.att = "", !.council = C],
            [K("token", -1) EXCEPT !.bal = B, !.setup = <<OStake("u1", 1)>>],
            [K("token", 2) EXCEPT !.bal = B, !.setup = <<OStake("u1", 1)>>],
            [K("nft", -1) EXCEPT !.nft = N4, !.setup = <<OStakeNft("u1", "a", "u1")>>],
            [K("nft", 2) EXCEPT !.nft = N4, !.setup = <<OStakeNft("u1", "a", "u1")>>],
            [K("multisig", -1) EXCEPT !.members = << <<"u1", 2>> >>],
            [K("denom", 2) EXCEPT !.bal = B, !.att = "t1", !.setup = <<OSign("u1"), OStake("u1", 1)>>],
            [K("denom", 3) EXCEPT !.bal = B, !.ws = "1000000007", !.setup = <<OStake("u1", 1)>>] >>
Dep(x) ==
  (IF Kind(x) \in {"denom", "token"}
   THEN {ODeposit(u, <<M("n1")>>, IF Kind(x) = "denom" THEN "native" ELSE "cw20", n, "dao", "none") : u \in {"u1", "u2"}, n \in {0, 1, 2, 3}}
   ELSE {})
  \cup {ODeposit("u2", <<M("n1")>>, "native", 3, "cash", "none"), ODeposit("u2", <<M("n1")>>, "cw20", 3, "tok", "none")}
  \cup (IF IsNft(x) THEN {ONftDeposit("u2", <<M("n1")>>, l, ap, "none") : l \in {<<>>, <<"b">>, <<"b", "c">>, <<"b", "b">>, <<"b", "d">>, <<"b", "zz">>}, ap \in BOOLEAN}
                           \cup {OLentDeposit("u2", <<M("n1")>>, l, "none") : l \in {<<"a", "d">>, <<"b", "d">>, <<"d", "d">>, <<"d", "zz">>}} \cup {OLentDeposit("u1", <<M("n1")>>, <<"b", "d">>, "u3")}
        ELSE {ONftDeposit("u2", <<M("n1")>>, <<"b">>, FALSE, "none")})
Acts(x) ==
  {<<>>, Rep(10), Rep(11), <<AWhite(<<"cash">>, <<"tok">>)>>, <<AWhite(<<"cash", "cash">>, <<>>)>>, <<AWhite(<<"cash">>, <<"cash">>)>>,
   <<AWhite(<<>>, <<"tok", "tok">>)>>, <<ANftw(<<"nft">>, <<"nft">>)>>, <<ANftw(<<"nft", "nft">>, <<>>)>>, <<ANftw(<<"nft">>, <<"nftx">>)>>,
   <<AUpg(<<1, 2, 1>>, <<>>)>>, <<AUpg(<<1, 3, 0>>, <<>>)>>, <<AUpg(<<0, 9, 9>>, <<>>)>>,
   <<AExec(<<MUnparse>>)>>, <<AExec(<<MSend("cash", "u1", 1)>>)>>, <<ATre(<<MSend("cash", "u1", 1), MUnparse>>)>>, <<AEnt(<<MUnparse>>)>>, <<AEnt(<<>>)>>,
   <<AMsig(<< <<"u1", 1>> >>)>>, <<AMsig(<< <<"u1", 1>>, <<"u1", 2>> >>)>>,
   <<ACouncil(Council(<<"u1", "u1">>, 50, 50, <<"default">>))>>, <<ACouncil(Council(<<"u1">>, 0, 50, <<"default">>))>>,
   <<ACouncil(Council(<<"u1">>, 50, 101, <<"default">>))>>, <<ACouncil(Council(<<"u1">>, 50, 50, <<"update_council">>))>>,
   <<ACouncil(Council(<<"u1">>, 50, 50, <<"update_metadata", "upgrade_dao">>))>>, <<ACouncil(Council(<<"u1">>, 50, 50, <<"request_funding_from_dao">>))>>, <<ACouncil(NoCouncil)>>,
   <<ADist(<< <<"cash", 5>> >>)>>, <<ADist(<< <<"m1155_a", 5>> >>)>>, <<AFund("u1", << <<"m1155_a", 5>> >>)>>, <<AFund("u1", << <<"tok", 5>> >>)>>,
   <<AGov([q |-> 0])>>, <<AGov([q |-> 101])>>, <<AGov([thr |-> 0])>>, <<AGov([thr |-> 100])>>, <<AGov([veto |-> 0])>>, <<AGov([veto |-> -1])>>, <<AGov([veto |-> 101])>>,
   <<AGov([dur |-> 0])>>, <<AGov([mindep |-> 3])>>, <<AGov([q |-> 100, dur |-> 5])>>, <<AMinw(5)>>,
   <<M("n1"), AGov([q |-> 0])>>}
MOps(x) ==
  IF Len(x.props) >= 2 THEN {}
  ELSE Dep(x)
    \cup {OPropose(u, <<M("n1")>>) : u \in MUsers}
    \cup {OPropose("u1", l) : l \in Acts(x)}
    \cup {ODeposit("u2", l, IF Kind(x) = "denom" THEN "native" ELSE "cw20", 3, IF Kind(x) \in {"denom", "token"} THEN "dao" ELSE "tok", "u3") : l \in {<<M("n1")>>, <<AGov([q |-> 0])>>, Rep(11)}}
    \cup (IF x.t < 1 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
