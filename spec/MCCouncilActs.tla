------------------------------ MODULE MCCouncilActs ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* which actions the council may propose, under which lists, and what changing the council does *)
M(n) == AMeta([name |-> n])
B == [dao |-> [u1 |-> 3], cash |-> [tre |-> 5]]
K(al) == [Cfg0 EXCEPT !.bal = B, !.gov = Gov(50, 50, -1, 2, -1, FALSE), !.council = al, !.setup = <<OStake("u1", 1)>>]
All == <<"update_metadata", "update_asset_whitelist", "update_nft_whitelist", "upgrade_dao", "deploy_cross_chain_treasury">>
MCfgs == << K(NoCouncil), K(Council(<<"u1", "u2">>, 50, 50, <<"default">>)), K(Council(<<"u1", "u2">>, 50, 50, All)), K(Council(<<"u2">>, 100, 100, <<"update_metadata">>)) ,
            [K(Council(<<"u2", "u3">>, 50, 50, <<"update_nft_whitelist">>)) EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.setup = <<>>],
            [K(Council(<<"u1", "u2">>, 50, 50, All)) EXCEPT !.att = "t1", !.setup = <<OSign("u1"), OStake("u1", 1)>>] >>
A1 == { M("n1"), AGov([q |-> 60]), ACouncil(NoCouncil), ACouncil(Council(<<"u3">>, 50, 50, <<"update_metadata">>)), AWhite(<<"cash">>, <<>>), ANftw(<<"nft">>, <<>>),
        AFund("u2", << <<"cash", 1>> >>), AUpg(<<1, 3, 0>>, <<>>), AExec(<<>>), ATre(<<MSend("cash", "u2", 1)>>), AEnt(<<>>), AMsig(<< <<"u2", 1>> >>),
        ADist(<< <<"cash", 1>> >>), AMinw(1) }
Pass(by, acts) == [op |-> "seq", ops |-> <<OPropose(by, acts), OTick(9)>>]
Enact(x, acts) == LET n == Len(x.props) + 1 IN [op |-> "seq", ops |-> <<OPropose("u1", acts), OVote("u1", n, 0), OTick(x.t + 2), OExec("u3", n)>>]
CEnact(x, u, acts) == LET n == Len(x.props) + 1 IN [op |-> "seq", ops |-> <<OCPropose(u, acts), OCVote(u, n, 0), OTick(x.t + 2), OExec("u1", n)>>]
MOps(x) ==
  {OCPropose(u, <<a>>) : u \in {"u1", "u2"}, a \in A1} \cup {OCPropose("u2", <<M("n1"), a>>) : a \in A1} \cup {OCPropose("u3", <<M("n1")>>), OCPropose("u2", <<>>)}
  \cup {Enact(x, <<ACouncil(c)>>) : c \in {NoCouncil, Council(<<"u3">>, 50, 60, <<"update_metadata">>), Council(<<"u1", "u3">>, 70, 30, <<"default">>),
                                           Council(<<"u3">>, 50, 60, <<"update_gov_config">>), Council(<<>>, 50, 50, All)}}
  \cup {CEnact(x, u, <<a>>) : u \in {"u2"}, a \in {M("n2"), AWhite(<<"cash">>, <<>>), ANftw(<<"nft">>, <<>>)}}
=============================================================================
