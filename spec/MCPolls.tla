------------------------------ MODULE MCPolls ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* two proposals with different ends, weight changes hitting both *)
B == [dao |-> [u1 |-> 3, u2 |-> 3]]
M(n) == AMeta([name |-> n])
MCfgs == << [Cfg0 EXCEPT !.bal = B, !.gov = Gov(50, 50, -1, 3, -1, FALSE), !.setup = <<OStake("u1", 1), OStake("u2", 1), OPropose("u1", <<M("n1")>>)>>],
            [Cfg0 EXCEPT !.kind = "token", !.ws = "100000000000000000000", !.bal = B, !.gov = Gov(50, 50, -1, 2, -1, TRUE), !.setup = <<OStake("u1", 1), OStake("u2", 1), OPropose("u1", <<M("n1")>>)>>],
            [Cfg0 EXCEPT !.kind = "nft", !.half = TRUE, !.nft = [a |-> "u1", b |-> "u2", c |-> "u1"], !.gov = Gov(50, 50, -1, 2, -1, FALSE),
               !.setup = <<OStakeNft("u1", "a", "u1"), OStakeNft("u2", "b", "u2"), OPropose("u1", <<M("n1")>>)>>] >>
MOps(x) ==
  {OVote(u, i, o) : u \in MUsers, i \in 1..2, o \in 0..1}
  \cup (IF Len(x.props) < 2 THEN {OPropose("u2", <<M("n2")>>)} ELSE {})
  \cup (IF IsNft(x) THEN {OStakeNft("u1", "c", "u1"), OStakeNft("u1", "c", "u2"), OUnstakeN("u1", <<"a">>), OUnstakeN("u2", <<"b">>)}
        ELSE {OStake("u1", 1), OStakeFor("u1", "u2", 1, "dao"), OUnstake("u1", 1), OUnstake("u2", 1)})
  \cup {OExec("u1", 1), OExec("u2", 2)}
  \cup (IF x.t < 5 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
