------------------------------ MODULE MCLegacy ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* an old DAO taken over step by step, while members already use the new contracts *)
Tm(n) == [k |-> "time", n |-> n]
Ht(n) == [k |-> "height", n |-> n]
Cl(u, a, i, r) == [u |-> u, amt |-> a, ids |-> i, rel |-> r]
L(st, cl, ms) == [on |-> TRUE, stage |-> "migration_in_progress", st |-> st, clm |-> cl, ms |-> ms, tot |-> [now |-> 7, was |-> 4, at |-> -3]]
B == [dao |-> [u1 |-> 2, tre |-> 12], cash |-> [u3 |-> 6]]
T == [Cfg0 EXCEPT !.kind = "token", !.bal = B, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> "height", n |-> 1], !.white = <<"cash">>,
                  !.leg = L(<< <<"u1", 2>>, <<"u2", 1>>, <<"u3", 3>> >>, <<Cl("u1", 1, <<>>, Tm(2)), Cl("u1", 1, <<>>, Ht(1)), Cl("u3", 2, <<>>, Tm(1))>>, <<>>)]
N == [Cfg0 EXCEPT !.kind = "nft", !.bal = [cash |-> [u3 |-> 6]], !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> "height", n |-> 1], !.white = <<"cash">>,
                  !.nft = [a |-> "tre", b |-> "tre", c |-> "tre", d |-> "tre", e |-> "tre", f |-> "tre", g |-> "u1"],
                  !.leg = L(<< <<"a", "u2">>, <<"c", "u1">>, <<"d", "u2">> >>, <<Cl("u1", 0, <<"f">>, Tm(2)), Cl("u3", 0, <<"e", "b">>, Ht(1))>>, <<>>)]
M == [Cfg0 EXCEPT !.kind = "multisig", !.bal = [dao |-> [tre |-> 3], cash |-> [u3 |-> 6]], !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.leg = L(<<>>, <<>>, << <<"u1", 2>>, <<"u2", 1>> >>)]
MCfgs == << T, N, M,
            [T EXCEPT !.leg.stage = "migration_completed", !.leg.st = << <<"u1", 0>>, <<"u2", 1>> >>, !.leg.clm = <<Cl("u2", 0, <<>>, Tm(1)), Cl("u2", 2, <<>>, Ht(2))>>, !.setup = <<OStake("u1", 1)>>],
            [N EXCEPT !.leg.stage = "migration_completed", !.leg.clm = <<Cl("u1", 0, <<"f">>, Tm(2)), Cl("u1", 0, <<"e", "b">>, Ht(2))>>, !.leg.st = <<>>, !.setup = <<OStakeNft("u1", "g", "u2")>>],
            [T EXCEPT !.att = "t0", !.setup = <<OSign("u1"), OSign("u2")>>], [N EXCEPT !.att = "t0", !.setup = <<OSign("u1")>>],
            [T EXCEPT !.bal = [dao |-> [u1 |-> 2, tre |-> 9], cash |-> [u3 |-> 6]]], [N EXCEPT !.nft = [@ EXCEPT !["e"] = "u2"]],
            [T EXCEPT !.leg.stage = "none"], [N EXCEPT !.leg.stage = "migration_not_started"],
            [T EXCEPT !.leg.stage = "migration_completed", !.leg.st = <<>>, !.leg.clm = <<>>],
            [T EXCEPT !.ws = "1000000", !.leg.st = <<>>] >>
Un(x) == IF IsNft(x) THEN {OUnstakeN("u2", <<"a">>), OUnstakeN("u1", <<"c">>), OStakeNft("u1", "g", "u1")} ELSE IF Kind(x) = "multisig" THEN {} ELSE {OUnstake("u1", 2), OUnstake("u3", 1), OStake("u1", 1)}
MOps(x) ==
  {OMig("u1", n) : n \in {-1, 0, 1, 2, 3, 4}} \cup {OMig(u, 5) : u \in {"gc", "u3", "mem"}}
  \cup Un(x) \cup {OClaim(u) : u \in {"u1", "u3"}} \cup {OSign("u3")}
  \cup (IF EffTotal(x) > 0 /\ 6 % EffTotal(x) = 0 THEN {ODist("u3", "cash", 6)} ELSE {}) \cup {OClaimRew("u1", "u1", <<"cash">>)}
  \cup (IF x.t < 2 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
