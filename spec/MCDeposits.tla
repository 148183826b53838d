------------------------------ MODULE MCDeposits ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* concurrent proposals with deposits, all outcomes, named owners *)
M(n) == AMeta([name |-> n])
F == AFund("u1", << <<"cash", 9>> >>)
B == [dao |-> [u1 |-> 4, u2 |-> 4, u3 |-> 2], cash |-> [tre |-> 5, u2 |-> 2]]
MCfgs == << [Cfg0 EXCEPT !.bal = B, !.gov = Gov(50, 50, 30, 2, 2, FALSE), !.setup = <<OStake("u3", 2)>>],
            [Cfg0 EXCEPT !.kind = "token", !.ws = "100000000000000000000", !.bal = B, !.gov = Gov(50, 50, -1, 2, 2, FALSE), !.setup = <<OStake("u3", 2)>>],
            [Cfg0 EXCEPT !.kind = "nft", !.nft = [a |-> "u1", b |-> "u2", c |-> "u1", d |-> "u3"], !.gov = Gov(50, 50, 30, 2, 1, FALSE),
               !.setup = <<OStakeNft("u3", "d", "u3")>>],
            [Cfg0 EXCEPT !.kind = "ics721", !.nft = [a |-> "u1", b |-> "u2", c |-> "u1", d |-> "u3"], !.gov = Gov(50, 50, 30, 2, 1, FALSE),
               !.setup = <<OLearn, OStakeNft("u3", "d", "u3")>>],
            [Cfg0 EXCEPT !.bal = B, !.gov = Gov(50, 50, -1, 2, 0, FALSE), !.setup = <<OStake("u3", 2)>>] >>
Via(x) == IF Kind(x) = "denom" THEN "native" ELSE "cw20"
Props2(x) ==
  IF Len(x.props) >= 2 \/ x.t > 2 THEN {}
  ELSE IF IsNft(x) THEN {ONftDeposit("u1", <<M("n1")>>, <<"a">>, TRUE, "none"), ONftDeposit("u1", <<M("n2")>>, <<"a", "c">>, TRUE, "u2"),
                         ONftDeposit("u2", <<F>>, <<"b">>, TRUE, "none"), ONftDeposit("u2", <<M("n1")>>, <<"a">>, FALSE, "none"), OLentDeposit("u2", <<M("n1")>>, <<"a">>, "none")}
  ELSE {ODeposit("u1", <<M("n1")>>, Via(x), 2, "dao", "none"), ODeposit("u2", <<M("n2")>>, Via(x), 3, "dao", "u1"),
        ODeposit("u2", <<F>>, Via(x), 2, "dao", "none"), ODeposit("u1", <<M("n1")>>, Via(x), 1, "dao", "u3")}
       \cup (IF Kind(x) = "denom" THEN {OMixedDeposit("u2", <<M("n1")>>, 2, << <<"cash", 1>> >>, "none")} ELSE {})
MOps(x) ==
  Props2(x)
  \cup {OVote("u3", i, o) : i \in 1..Len(x.props), o \in 0..3}
  \cup {OExec("u2", i) : i \in 1..Len(x.props)}
  \cup (IF x.t < 4 THEN {OTick(x.t + 1)} ELSE {})
  \cup (IF x.t < 2 /\ x.props # <<>> THEN {OTick(x.t + 2)} ELSE {})
=============================================================================
