------------------------------ MODULE MCVoters ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3", "u4"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* who may vote, on what and when, in every kind of DAO, with an attestation and a council *)
B == [dao |-> [u1 |-> 2, u2 |-> 2, u3 |-> 2]]
M0 == AMeta([name |-> "n1"])
C == Council(<<"u2", "u4">>, 50, 50, <<"update_metadata">>)
P2s == <<OPropose("u1", <<M0>>), OCPropose("u2", <<M0>>)>>
MCfgs == << [Cfg0 EXCEPT !.bal = B, !.council = C, !.setup = <<OStake("u1", 1), OStake("u2", 1)>> \o P2s],
            [Cfg0 EXCEPT !.kind = "token", !.bal = B, !.council = C, !.att = "t1", !.half = TRUE,
               !.setup = <<OSign("u1"), OSign("u2"), OStake("u1", 1), OStake("u2", 1)>> \o P2s],
            [Cfg0 EXCEPT !.kind = "nft", !.nft = [a |-> "u1", b |-> "u2", c |-> "u3"], !.council = C,
               !.setup = <<OStakeNft("u1", "a", "u1"), OStakeNft("u2", "b", "u2")>> \o P2s],
            [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>>, <<"u2", 2>>, <<"u3", 0>> >>, !.council = C, !.setup = P2s] >>
MOps(x) ==
  {OVote(u, i, o) : u \in MUsers, i \in 0..3, o \in {0, 3}}
  \cup {OCVote(u, i, 0) : u \in {"u1", "u2", "u4"}, i \in 1..2}
  \cup {OExec("u1", 1), OExec("u2", 2)}
  \cup (CASE Kind(x) \in {"denom", "token"} -> {OUnstake("u1", 1), OStake("u3", 1)}
          [] Kind(x) = "nft" -> {OUnstakeN("u1", <<"a">>), OStakeNft("u3", "c", "u3")}
          [] OTHER -> {OEdit("gc", "mem", << <<"u1", 0>> >>), OEdit("gc", "mem", << <<"u3", 1>> >>)})
  \cup (IF x.att # "" THEN {OSign("u3"), OSetAtt("gc", "t2"), ORmAtt("gc")} ELSE {OSetAtt("gc", "t2")})
  \cup (IF x.t < 3 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
