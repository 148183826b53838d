------------------------------ MODULE MCUpg ------------------------------
EXTENDS Props, Base
MUsers == {"u1"}
MAssets == {"cash"}
MRew == {"cash"}
(* upgrades along the registry *)
V(a, b, c) == <<a, b, c>>
(* more versions than fit on a page of the registry *)
Many == << <<V(1,2,1), 1>> >> \o [i \in 1..116 |-> <<V(1, 3 + ((i - 1) \div 20), (i - 1) % 20), 1 + (i % 5)>>]
C(vs, st) == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.bal = [cash |-> [u1 |-> 0]], !.versions = vs, !.start = st]
MCfgs == << C(<< <<V(1,2,1), 1>>, <<V(1,2,2), 2>>, <<V(1,3,0), 3>>, <<V(2,0,0), 4>> >>, 1),
            C(<< <<V(1,1,0), 1>>, <<V(1,1,9), 2>>, <<V(1,2,1), 3>>, <<V(1,10,0), 4>>, <<V(2,0,0), 5>> >>, 1),
            C(<< <<V(1,2,0), 1>>, <<V(2,0,0), 2>>, <<V(1,2,1), 3>>, <<V(1,9,0), 4>> >>, 1),
            C(Many, 1),
            C(<< <<V(0,9,9), 1>>, <<V(1,0,0), 2>>, <<V(1,0,1), 3>> >>, 1) >>
Up(b, v, m) == [op |-> "upg", by |-> b, v |-> v, msgs |-> m]
Targets == {V(1,2,1), V(1,2,2), V(1,3,0), V(2,0,0), V(1,10,0), V(1,1,9), V(3,0,0), V(1,2,0), V(1,0,1), V(0,9,9), V(1,5,4), V(1,6,3), V(1,8,7), V(1,8,15)}
Msgs == { <<>>, << <<V(1,3,0), "m1">> >>, << <<V(1,2,2), "m1">>, <<V(2,0,0), "m2">> >>, << <<V(2,0,0), "fail">> >>, << <<V(1,2,1), "nojson">> >>,
          << <<V(1,3,0), "m1">>, <<V(1,3,0), "m2">> >>, << <<V(9,0,0), "m1">> >>, << <<V(1,3,1), "m5">>, <<V(1,5,2), "m6">> >>, << <<V(1,9,0), "m3">>, <<V(1,10,0), "m4">> >> }
MOps(x) ==
  {Up("gc", v, m) : v \in Targets, m \in Msgs} \cup {Up(b, V(2,0,0), <<>>) : b \in {"u1", "ent", "gov", "creator", "ver", "fac", "tre"}}
=============================================================================
