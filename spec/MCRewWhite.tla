------------------------------ MODULE MCRewWhite ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash", "gold", "tok", "tokb", "z"}
MRew == {"cash", "gold", "tok", "tokb", "z"}
Name(n) == "a" \o ToString(n)
Long(k, n) == [i \in 1..n |-> k \o ToString(100 + i)]

(* which assets may be distributed: the lists of the treasury and of the factory, however long *)
Rich == [u2 |-> 8400]
C(w, g) == [Cfg0 EXCEPT !.white = w, !.gwhite = g, !.gov = Gov(50, 50, -1, 1, -1, FALSE),
                     !.bal = [dao |-> [u1 |-> 2], cash |-> Rich, gold |-> Rich, tok |-> Rich, tokb |-> Rich, z |-> Rich], !.setup = <<OStake("u1", 1)>>]
MCfgs == << C(<<"cash", "tok">>, <<"gold">>), C(Long("b", 49) \o <<"cash">>, <<>>), C(Long("b", 35) \o <<"z">> \o Long("cw", 40) \o <<"tokb">>, Long("g", 40) \o <<"gold">>),
            C(Long("b", 130) \o <<"z">>, Long("cw", 35) \o <<"tok">>), C(Long("b", 30) \o <<"tok">>, <<>>), C(Long("b", 100) \o <<"tok">>, <<>>), C(<<>>, <<"cash">>),
            C(Long("b", 29) \o <<"z">>, <<>>), C(Long("b", 99) \o <<"z">> \o Long("cw", 2), <<>>), [C(<<"cash">>, <<>>) EXCEPT !.setup = <<>>], [C(<<"cash">>, <<>>) EXCEPT !.minw = 2] >>
MOps(x) ==
  {ODist("u2", a, 840) : a \in RewAssets}
  \cup {[op |-> "dist2", by |-> "u2", funds |-> l] : l \in { << <<"cash", 840>>, <<"gold", 840>> >>, << <<"cash", 840>>, <<"z", 840>> >>, << <<"gold", 840>>, <<"z", 840>> >> }}
  \cup {[op |-> "tredist", by |-> "u1", funds |-> << <<"cash", 840>> >>], [op |-> "disw", by |-> "u1", edits |-> << <<"u1", 9>> >>]}
  \cup {[op |-> "white", by |-> "gc", add |-> <<"z">>, rem |-> <<"cash">>]}
  \cup {OUnstake("u1", 1)} \cup {OStake("u1", 1)} \cup {OMinw("gc", 2)}
=============================================================================
