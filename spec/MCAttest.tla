------------------------------ MODULE MCAttest ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* who is shut out by an attestation *)
Rich == [u3 |-> 8400]
A == <<AMeta([name |-> "n1"])>>
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = [dao |-> [u1 |-> 4, u2 |-> 4], cash |-> [u1 |-> 840]], !.white = <<"cash">>, !.gov = Gov(50, 50, -1, 2, -1, FALSE), !.ul = [k |-> "time", n |-> 2],
                     !.att = "text", !.council = Council(<<"u1", "u2">>, 50, 50, <<"update_metadata">>),
                     !.setup = <<OSign("u1"), OStake("u1", 2), OSign("u2"), OStake("u2", 1)>>]
Fin == <<OPropose("u1", A), OCPropose("u1", A), ODist("u1", "cash", 840)>>
MCfgs == << [C("denom") EXCEPT !.setup = @ \o Fin \o <<OUnstake("u2", 0), OSetAtt("gc", "text2"), OSign("u1")>>], [C("token") EXCEPT !.setup = @ \o Fin],
            [C("denom") EXCEPT !.att = "", !.setup = <<OStake("u1", 2), OStake("u2", 1)>> \o Fin],
            [C("nft") EXCEPT !.bal = [cash |-> [u1 |-> 840]], !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u2"],
               !.setup = <<OSign("u1"), OSign("u2"), OStakeNft("u1", "a", "u1"), OStakeNft("u2", "c", "u2")>> \o Fin \o <<OSetAtt("gc", "text2"), OSign("u1")>>] >>
Old(u) == [op |-> "sign", by |-> u, c |-> "att1"]
MOps(x) ==
  {OSign(u) : u \in Users} \cup (IF Cfg(x).att # "" THEN {Old("u2")} ELSE {})
  \cup {OSetAtt("gc", t) : t \in {"text2", ""} \ {x.att, ""}} \cup {OSetAtt("u1", "text3"), ORmAtt("gc"), ORmAtt("u2")}
  \cup {OPropose("u2", A), OCPropose("u2", A), OVote("u2", 1, 0), OCVote("u2", 2, 0), OExec("u2", 1), OVote("u1", 1, 0), OClaimRew("u2", "u2", <<"cash">>)}
  \cup (IF IsNft(x) THEN {OStakeNft("u2", "d", "u2"), OStakeNft("u1", "b", "u2"), OUnstakeN("u2", <<"c">>)} ELSE {OStake("u2", 1), OStakeFor("u1", "u2", 1, "dao"), OUnstake("u2", 1)})
  \cup {OClaim("u2")}
  \cup (IF x.t < 2 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
