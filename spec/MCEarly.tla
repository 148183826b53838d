------------------------------ MODULE MCEarly ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* early resolution: grace delay, outlook changes, repeated resolution *)
B == [dao |-> [u1 |-> 4, u2 |-> 3, u3 |-> 3]]
M0 == AMeta([name |-> "n1"])
St == <<OStake("u1", 2), OStake("u2", 2), OStake("u3", 1)>>
D(kind, q, th, ve, dur, early) == [Cfg0 EXCEPT !.kind = kind, !.bal = B, !.gov = Gov(q, th, ve, dur, -1, early),
     !.setup = St \o <<OPropose("u1", <<M0>>)>>]
MCfgs == << [D("denom", 30, 50, -1, 21, TRUE) EXCEPT !.ws = "100000000000000000000"], [D("token", 30, 50, -1, 20, TRUE) EXCEPT !.half = TRUE],
            [D("multisig", 30, 50, 40, 5, TRUE) EXCEPT !.members = << <<"u1", 2>>, <<"u2", 2>>, <<"u3", 1>> >>, !.setup = <<OPropose("u1", <<M0>>)>>],
            [D("multisig", 60, 50, 40, 5, FALSE) EXCEPT !.members = << <<"u1", 2>>, <<"u2", 2>>, <<"u3", 1>> >>, !.setup = <<OPropose("u1", <<M0>>)>>] >>
End(x) == x.props[1].en
MOps(x) ==
  {OVote(u, 1, o) : u \in MUsers, o \in 0..1} \cup {OVote("u2", 1, 3)}
  \cup {OExec("u3", 1)}
  \cup (IF Kind(x) \in {"denom", "token"} THEN {OUnstake("u2", 2), OStake("u3", 2)} ELSE {})
  \cup {OTick(t) : t \in {t \in {x.t + 1, x.t + 2, End(x) - 1, End(x)} : t > x.t /\ t <= End(x)}}
=============================================================================
