------------------------------ MODULE MCVotes ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* votes, re-votes and weight changes around the end of one proposal *)
B == [dao |-> [u1 |-> 4, u2 |-> 3, u3 |-> 3]]
M0 == AMeta([name |-> "n1"])
MCfgs == << [Cfg0 EXCEPT !.bal = B, !.gov = Gov(50, 50, 30, 3, -1, TRUE),
               !.setup = <<OStake("u1", 2), OStake("u2", 1), OPropose("u1", <<M0>>)>>],
            [Cfg0 EXCEPT !.kind = "token", !.ws = "100000000000000000000", !.bal = B, !.gov = Gov(40, 60, -1, 3, -1, FALSE),
               !.setup = <<OStake("u1", 2), OStake("u2", 1), OPropose("u1", <<M0>>)>>] >>
MOps(x) ==
  {OVote(u, 1, o) : u \in MUsers, o \in 0..3}
  \cup {OVote("u1", 2, 0)}
  \cup {OStake("u3", 1), OStake("u2", 1), OUnstake("u1", 1), OUnstake("u1", 2), OUnstake("u2", 1)}
  \cup {OExec("u3", 1)}
  \cup (IF x.t < 4 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
