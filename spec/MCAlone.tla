------------------------------ MODULE MCAlone ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao"}
MRew == {"dao"}
(* a membership contract that takes over the history of totals of its predecessor *)
Al(h, e, l) == [ch |-> h, cs |-> e, hooks |-> l]
H1 == << <<-5, 3>>, <<-3, 8>>, <<-2, 1>> >>
H2 == << <<-4, 2>> >>
C == [Cfg0 EXCEPT !.bal = [dao |-> [u1 |-> 3, u2 |-> 1]], !.ul = [k |-> "height", n |-> 1], !.hist = TRUE]
T == [tell |-> <<"rec", "rec2">>]
MCfgs == << [C EXCEPT !.kind = "token"] @@ T @@ [alone |-> Al(H1, H2, <<"rec">>)],
            [C EXCEPT !.kind = "token", !.ws = "1000000"] @@ T @@ [alone |-> Al(<<>>, H1, <<>>)],
            [C EXCEPT !.kind = "nft", !.bal = [dao |-> [u1 |-> 0]], !.nft = [a |-> "u1", b |-> "u2"]] @@ T @@ [alone |-> Al(H2, H1, <<"rec2", "rec">>)],
            [C EXCEPT !.kind = "multisig", !.bal = [dao |-> [u1 |-> 0]], !.members = << <<"u1", 3>>, <<"u2", 2>> >>] @@ T @@ [alone |-> Al(H1, <<>>, <<"rec", "rec2">>)],
            [C EXCEPT !.kind = "multisig", !.bal = [dao |-> [u1 |-> 0]], !.members = << <<"u1", 3>> >>] @@ T @@ [alone |-> Al(H1, H1, <<"rec">>)] >>
MOps(x) ==
  (IF Kind(x) = "token" THEN {OStake("u1", 2), OStake("u2", 1), OUnstake("u1", 1)} ELSE {})
  \cup (IF IsNft(x) THEN {OStakeNft("u1", "a", "u1"), OStakeNft("u2", "b", "u1"), OUnstakeN("u1", <<"a">>)} ELSE {})
  \cup (IF Kind(x) = "multisig" THEN {OEdit("gc", "mem", << <<"u1", 5>>, <<"u2", 0>> >>), OSet("gc", "mem", << <<"u2", 4>> >>)} ELSE {})
  \cup {OHook("gc", "mem", "rem", "rec"), OHook("gc", "mem", "add", "rec2")}
  \cup (IF x.t < 3 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
