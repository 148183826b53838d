----------------------------- MODULE MCRegMany ------------------------------
(* more versions than fit a page, added out of order *)
EXTENDS Registry, Base
A(by, v, b) == [op |-> "addver", by |-> by, v |-> v, base |-> b]
V(i) == <<1 + ((i * 7) % 3), (i * 11) % 17, i * 40>>
Many(n) == [i \in 1..n |-> A("veradmin", V(i), 1 + (i % 9))]
C(n) == [Cfg0 EXCEPT !.kind = "none", !.versions = <<>>, !.setup = Many(n)]
MCfgs == << C(11), C(30), C(62) >>
MProbes == [i \in 1..20 |-> V(3 * i)] \o << <<0, 0, 1>>, <<2, 5, 300>>, <<3, 16, 4000>>, <<4, 0, 0>> >>
MOps(x) == {A("veradmin", v, 2) : v \in {<<0, 0, 1>>, <<2, 5, 301>>, <<9, 0, 0>>, V(5)}}
=============================================================================
