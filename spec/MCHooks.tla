------------------------------ MODULE MCHooks ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao"}
MRew == {"dao"}
(* listeners of weight changes, of all kinds of membership and of the council *)
L == <<"rec", "rec2">>
C == [Cfg0 EXCEPT !.bal = [dao |-> [u1 |-> 4, u2 |-> 2]], !.council = Council(<<"u1", "u2">>, 50, 50, <<"default">>), !.ul = [k |-> "height", n |-> 1]]
MCfgs == << C @@ [tell |-> L],
            [C EXCEPT !.kind = "token"] @@ [tell |-> L],
            [C EXCEPT !.kind = "nft", !.bal = [dao |-> [u1 |-> 0]], !.nft = [a |-> "u1", b |-> "u1", c |-> "u2"]] @@ [tell |-> L],
            [C EXCEPT !.kind = "multisig", !.bal = [dao |-> [u1 |-> 0]], !.members = << <<"u1", 3>>, <<"u2", 2>> >>] @@ [tell |-> L],
            [C EXCEPT !.kind = "multisig", !.bal = [dao |-> [u1 |-> 0]], !.members = << <<"u1", 3>>, <<"u2", 2>> >>, !.gov = Gov(50, 50, -1, 1, -1, FALSE),
                      !.setup = << OTick(0), OPropose("u1", <<AMsig(<< <<"u1", 1>>, <<"u3", 2>> >>), ACouncil(Council(<<"u3">>, 50, 50, <<"default">>))>>), OVote("u1", 1, 0) >>] @@ [tell |-> L] >>
Few == {"u1", "u2"}
Of(x, c) == Len(SelectSeq(<<"rec", "rec2", "u3">>, LAMBDA l : l \in x.lst[c]))
Hooks(x) == {OHook("gc", c, w, l) : c \in Rolls, w \in {"add", "rem"}, l \in {"rec", "rec2", "u3"}}
            \cup {OHook(b, c, w, "rec") : b \in {"u1", "ent", "rec"}, c \in Rolls, w \in {"add", "rem"}}
Members == { << <<"u1", 5>>, <<"u2", 0>> >>, << <<"u3", 1>>, <<"u1", 4>>, <<"u2", 3>> >> }
CMembers == { << <<"u3", 1>>, <<"u1", 0>> >>, << <<"u2", 2>> >> }
MOps(x) ==
  Hooks(x)
  \cup (IF Kind(x) \in {"denom", "token"} THEN {OStake("u1", 2), OStakeFor("u1", "u2", 1, "dao")} \cup {OUnstake(u, 1) : u \in Few} \cup {OClaim("u1")} ELSE {})
  \cup (IF Kind(x) = "token" THEN {[op |-> "addstakes", by |-> "u1", amt |-> 3, list |-> << <<"u1", 1>>, <<"u2", 1>>, <<"u1", 1>> >>]} ELSE {})
  \cup (IF IsNft(x) THEN {OStakeNft("u1", "a", "u1"), OStakeNft("u1", "b", "u2"), OStakeNft("u2", "c", "u2"), OUnstakeN("u1", <<"a">>), OUnstakeN("u2", <<"b", "c">>), OUnstakeN("u2", <<"c">>)} ELSE {})
  \cup (IF Kind(x) = "multisig" THEN {OEdit("gc", "mem", l) : l \in Members} \cup {OSet("gc", "mem", l) : l \in Members} ELSE {})
  \cup {OEdit("gc", "cou", l) : l \in CMembers} \cup {OSet("gc", "cou", l) : l \in CMembers}
  \cup (IF x.props # <<>> /\ \A c \in Rolls : \A l \in x.lst[c] : Hears(l) THEN {OExec("u3", 1)} ELSE {})
  \cup (IF x.t < 1 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
