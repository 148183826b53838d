----------------------------- MODULE MCRegEdit ------------------------------
(* edits of every single field, every pair of fields, all and none *)
EXTENDS Registry, Base
A(by, v, b) == [op |-> "addver", by |-> by, v |-> v, base |-> b]
Ed(by, v, f, b) == [op |-> "editver", by |-> by, v |-> v, f |-> f, base |-> b]
MCfgs == << [Cfg0 EXCEPT !.kind = "none", !.versions = <<>>, !.setup = <<A("veradmin", <<1, 0, 0>>, 1), A("veradmin", <<0, 9, 0>>, 2)>>] >>
MProbes == << <<1, 0, 0>>, <<0, 9, 0>> >>
MOps(x) == {Ed("veradmin", <<1, 0, 0>>, {a, b}, 3) : a, b \in Fields} \cup {Ed("veradmin", <<1, 0, 0>>, Fields, 4), Ed("veradmin", <<1, 0, 0>>, {}, 4)}
           \cup {Ed(b, <<0, 9, 0>>, Fields, 5) : b \in {"u1", "veradmin", "ver", "fac", "facadmin", "owner"}}
=============================================================================
