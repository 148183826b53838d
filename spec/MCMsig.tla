------------------------------ MODULE MCMsig ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* multisig and council member lists *)
C == [Cfg0 EXCEPT !.kind = "multisig", !.bal = [cash |-> [tre |-> 1680]], !.members = << <<"u1", 3>>, <<"u2", 2>> >>,
                  !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.white = <<"cash">>, !.hist = TRUE, !.council = Council(<<"u1", "u3">>, 50, 50, <<"default">>)]
MCfgs == << C, [C EXCEPT !.kind = "denom", !.members = <<>>, !.bal = [dao |-> [u1 |-> 1], cash |-> [u1 |-> 0]], !.gov = Gov(50, 50, -1, 2, 0, FALSE), !.half = TRUE, !.hist = FALSE] >>
Lists == { << <<"u1", 0>> >>, << <<"u1", 1>>, <<"u2", 0>> >>, << <<"u3", 4>> >>, << <<"u3", 1>>, <<"u1", 2>>, <<"u2", 3>> >>, <<>>, << <<"u2", 2>> >> }
Dups == { << <<"u1", 1>>, <<"u1", 2>> >>, << <<"u2", 2>>, <<"u3", 1>>, <<"u2", 0>> >> }
MOps(x) ==
  {OEdit(b, c, l) : b \in {"gc"}, c \in {"mem", "cou"}, l \in Lists \cup Dups} \cup {OSet("gc", c, l) : c \in {"mem", "cou"}, l \in Lists \cup Dups}
  \cup {OEdit(b, c, << <<"u3", 4>> >>) : b \in {"u1", "ent", "mem"}, c \in {"mem", "cou"}} \cup {OSet(b, c, << <<"u3", 4>> >>) : b \in {"u1", "ent"}, c \in {"mem", "cou"}}
  \cup {OUnstake("u1", 1), OClaim("u1")}
  \cup (IF x.t < 3 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
