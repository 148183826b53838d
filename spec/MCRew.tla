------------------------------ MODULE MCRew ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash", "gold", "tok"}
MRew == {"cash", "gold", "tok"}
(* reward shares, minimum weight and claims; shares are whole numbers by choice of amounts *)
Rich == [u3 |-> 84000]
C(k, ws, mw) == [Cfg0 EXCEPT !.kind = k, !.ws = ws, !.white = <<"cash", "gold", "tok">>, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.minw = mw,
                     !.bal = [dao |-> [u1 |-> 4, u2 |-> 2], cash |-> Rich, gold |-> Rich, tok |-> Rich], !.setup = <<OStake("u1", 2), OStake("u2", 1)>>]
MCfgs == << [C("denom", "1", -1) EXCEPT !.sc = [cash |-> "1000000000000000"]], C("token", "1000000", 2),
            [C("multisig", "1", 2) EXCEPT !.members = << <<"u1", 3>>, <<"u2", 1>> >>, !.setup = <<ODist("u3", "cash", 840)>>],
            [C("denom", "1", 1) EXCEPT !.setup = <<OStake("u1", 2), ODist("u3", "cash", 840), OMinw("gc", 3), OStake("u2", 2)>>] >>
Change(x) ==
  CASE Kind(x) \in {"denom", "token"} -> {OStake("u1", 1), OStake("u2", 1), OUnstake("u1", 1), OUnstake("u2", 1), OUnstake("u1", 2)}
    [] OTHER -> {OEdit("gc", "mem", << <<"u1", 0>> >>), OEdit("gc", "mem", << <<"u1", 1>>, <<"u2", 3>> >>), OSet("gc", "mem", << <<"u2", 2>>, <<"u1", 2>> >>)}
MOps(x) ==
  Change(x)
  \cup {ODist("u3", a, 840) : a \in {"cash", "tok"}} \cup {[op |-> "dist2", by |-> "u3", funds |-> << <<"cash", 840>>, <<"gold", 1680>> >>]}
  \cup {OMinw("gc", w) : w \in {0, 2, 3}} \cup {OMinw("u1", 1)}
  \cup {OClaimRew("u1", "u1", <<"cash", "cash", "tok">>), OClaimRew("u2", "u2", <<"cash", "gold">>), OClaimRew("u1", "u2", <<"cash">>), OClaimRew("u1", "u1", <<>>)}
=============================================================================
