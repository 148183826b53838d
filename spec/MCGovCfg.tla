------------------------------ MODULE MCGovCfg ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* sequences of configuration changes through governance, with a proposal running alongside *)
B == [dao |-> [u1 |-> 3]]
K(kind) == [Cfg0 EXCEPT !.kind = kind, !.bal = B, !.gov = Gov(50, 50, 40, 2, -1, FALSE)]
MCfgs == << [K("denom") EXCEPT !.ul = [k |-> "time", n |-> 2], !.setup = <<OStake("u1", 1)>>], [K("multisig") EXCEPT !.members = << <<"u1", 1>> >>] ,
            [K("token") EXCEPT !.setup = <<OStake("u1", 1)>>] >>
Enact(x, acts) == LET n == Len(x.props) + 1 IN [op |-> "seq", ops |-> <<ODeposit("u1", acts, IF Kind(x) = "denom" THEN "native" ELSE IF Kind(x) = "token" THEN "cw20" ELSE "none", IF Kind(x) = "multisig" THEN 0 ELSE 1, "dao", "none"), OVote("u1", n, 0), OTick(x.t + x.gov.dur), OExec("u2", n)>>]
F == { [q |-> 1], [q |-> 100], [thr |-> 1], [thr |-> 100], [veto |-> 1], [veto |-> -1], [veto |-> 100], [early |-> TRUE], [dur |-> 1], [dur |-> 4], [mindep |-> 0], [mindep |-> 1], [mindep |-> -1],
       [ul |-> [k |-> "time", n |-> 0]], [ul |-> [k |-> "time", n |-> 1]], [ul |-> [k |-> "time", n |-> 2]], [ul |-> [k |-> "time", n |-> 4]], [ul |-> [k |-> "height", n |-> 1]],
       [q |-> 70, thr |-> 80, veto |-> 90, dur |-> 3, early |-> TRUE], [dur |-> 3, ul |-> [k |-> "time", n |-> 3]], [dur |-> 3, ul |-> [k |-> "time", n |-> 2]],
       [dur |-> 0, q |-> 30], [q |-> 0, thr |-> 30], [q |-> 30, thr |-> 0], [thr |-> 30, veto |-> 0], [q |-> 1333, thr |-> 1667, veto |-> 1005], [q |-> 2001], [thr |-> 1001], [q |-> 101], [thr |-> 101], [veto |-> 101], [dur |-> 0] }
MOps(x) == {Enact(x, <<AGov(f)>>) : f \in F} \cup {OPropose("u1", <<AMeta([name |-> "n1"])>>)}
=============================================================================
