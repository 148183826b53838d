------------------------------ MODULE MCFace ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* every DAO type, looked at and operated through the facade *)
M0 == AMeta([name |-> "n1", logo |-> "http://l", gh |-> "g"])
Al == <<"upgrade_dao", "update_metadata", "update_asset_whitelist">>
B == [dao |-> [u1 |-> 4, u2 |-> 3, tre |-> 2], cash |-> [tre |-> 3]]
F(k, v) == [Cfg0 EXCEPT !.kind = k, !.via = v, !.bal = B, !.gov = Gov(50, 60, 30, 2, 1, TRUE), !.ul = [k |-> "time", n |-> 2],
                        !.council = Council(<<"u2", "u3">>, 50, 50, Al), !.white = <<"cash", "tok">>, !.nftw = <<"nftx">>, !.att = "t0"]
Old(v) == << <<v, 1>> >>
Sig == <<OSign("u1"), OSign("u2")>>
MCfgs == << [F("denom", "ent") EXCEPT !.setup = Sig \o <<OStake("u1", 2), OStake("u2", 1), OTick(0)>>],
            [F("token", "tre") EXCEPT !.att = "", !.gov = Gov(50, 60, -1, 2, 1, FALSE), !.council = NoCouncil, !.setup = <<OStake("u1", 2), OStake("u2", 1)>>],
            [F("nft", "tre") EXCEPT !.att = "", !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u1", e |-> "u1"], !.bal = [cash |-> [tre |-> 3]], !.setup = <<OStakeNfts("u1", <<"a", "b">>, "u2")>>],
            [F("ics721", "ent") EXCEPT !.att = "", !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u1", e |-> "u1"], !.bal = [cash |-> [tre |-> 3]]],
            [F("multisig", "ent") EXCEPT !.members = << <<"u1", 2>>, <<"u2", 1>>>>, !.bal = [cash |-> [tre |-> 3]], !.setup = Sig, !.gov = Gov(50, 60, 30, 2, -1, TRUE)],
            (* DAOs of earlier versions *)
            [F("ics721", "tre") EXCEPT !.att = "", !.versions = Old(<<1, 2, 0>>), !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u1", e |-> "u1"], !.bal = [cash |-> [tre |-> 3]], !.setup = <<OLearn>>],
            [F("nft", "ent") EXCEPT !.att = "", !.versions = Old(<<1, 1, 9>>), !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u1", e |-> "u1"], !.bal = [cash |-> [tre |-> 3]], !.setup = <<OStakeNfts("u1", <<"a", "b">>, "u2")>>],
            [F("multisig", "tre") EXCEPT !.versions = Old(<<1, 0, 1>>), !.members = << <<"u1", 2>>, <<"u2", 1>>>>, !.bal = [cash |-> [tre |-> 3]], !.setup = Sig, !.gov = Gov(50, 60, 30, 2, -1, TRUE)] >>
St(x) == CASE IsNft(x) -> {OStakeNfts("u1", <<"d", "e">>, "u1"), OStakeNft("u2", "c", "u2"), OUnstakeN("u2", <<"a">>), OUnstakeN("u2", <<"c">>)}
           [] Kind(x) = "multisig" -> {OEdit("gc", "mem", << <<"u3", 2>> >>), OUnstake("u1", 1)}
           [] OTHER -> {OStakeFor("u1", "u3", 1, "dao"), OUnstake("u1", 1), OUnstake("u2", 1)}
Pr(x) == CASE IsNft(x) -> {ONftDeposit("u1", <<M0>>, <<"d", "e">>, TRUE, "none"), ONftDeposit("u2", <<M0>>, <<"c">>, TRUE, "u3")}
           [] Kind(x) = "multisig" -> {OPropose("u1", <<M0>>)}
           [] Kind(x) = "denom" -> {ODeposit("u1", <<M0, AFund("u3", << <<"cash", 1>> >>)>>, "native", 1, "dao", "u2")}
           [] OTHER -> {ODeposit("u1", <<M0, AFund("u3", << <<"cash", 1>> >>)>>, "cw20", 1, "dao", "u2")}
MOps(x) ==
  {o \in St(x) : x.t < 3} \cup (IF Known(x) THEN {} ELSE {OLearn}) \cup (IF Len(x.props) < 2 THEN Pr(x) \cup {OPropose("u2", <<M0>>), OCPropose("u2", <<AWhite(<<"dao">>, <<"cash">>)>>)} ELSE {})
  \cup {OVote("u1", 1, 0), OVote("u2", 1, 3), OCVote("u2", 1, 0), OCVote("u3", 1, 1), OExec("u3", 1)}
  \cup {OClaim(u) : u \in {"u1", "u2"}}
  \cup (IF x.t < 5 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
