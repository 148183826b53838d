------------------------------ MODULE MCRound ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash", "tok"}
MRew == {"cash", "tok"}
(* shares that are not whole numbers *)
Rich == [u3 |-> 9000]
C(k, ws, mw) == [Cfg0 EXCEPT !.kind = k, !.ws = ws, !.white = <<"cash", "tok">>, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.minw = mw, !.round = TRUE,
                     !.bal = [dao |-> [u1 |-> 4, u2 |-> 4], cash |-> Rich, tok |-> Rich], !.setup = <<OStake("u1", 2), OStake("u2", 1)>>]
MCfgs == << C("denom", "1", -1), C("token", "1000000", 2), [C("token", "1000000000000", -1) EXCEPT !.setup = <<OStake("u1", 3), OStake("u2", 4)>>] >>
MOps(x) ==
  {OUnstake("u1", 1), OStake("u2", 1), OUnstake("u2", 1)}
  \cup {ODist("u3", "cash", n) : n \in {1, 7}} \cup {ODist("u3", "tok", 10)}
  \cup {OMinw("gc", w) : w \in {0, 2} \ {x.minw}}
  \cup {OClaimRew(u, u, <<"cash", "tok">>) : u \in {"u1", "u2"}}
=============================================================================
