------------------------------- MODULE MCReg --------------------------------
(* histories of additions in any order, edits of one field and changes of administrator *)
EXTENDS Registry, Base
A(by, v, b) == [op |-> "addver", by |-> by, v |-> v, base |-> b]
Ed(by, v, f, b) == [op |-> "editver", by |-> by, v |-> v, f |-> f, base |-> b]
Ad(by, to) == [op |-> "veradmin", by |-> by, to |-> to]
C0 == [Cfg0 EXCEPT !.kind = "none", !.versions = <<>>]
MCfgs == << C0, [C0 EXCEPT !.setup = <<A("veradmin", <<1, 9, 0>>, 3)>>] >>
Vs == {<<1, 10, 0>>, <<1, 9, 0>>, <<1, 256, 0>>, <<2, 0, 0>>, <<1, 9, 2>>}
MProbes == << <<1, 10, 0>>, <<1, 9, 0>>, <<1, 256, 0>>, <<2, 0, 0>>, <<1, 9, 1>>, <<1, 9, 2>>, <<0, 0, 0>>, <<9, 9, 9>> >>
MOps(x) ==
  {A("veradmin", v, 1) : v \in Vs} \cup {A("u1", <<2, 0, 0>>, 1)} \cup {A("veradmin", <<1, 9, 0>>, 2)}
  \cup {Ed("veradmin", v, {"log", "enterprise"}, 2) : v \in Vs} \cup {Ed("u1", <<1, 9, 0>>, {"log"}, 2)}
  \cup {Ad("veradmin", "u1"), Ad("u1", "veradmin"), Ad("u2", "u2")}
=============================================================================
