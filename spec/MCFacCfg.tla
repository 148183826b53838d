------------------------------ MODULE MCFacCfg ------------------------------
(* the factory's own settings and which version a new DAO gets *)
EXTENDS FacReq
MUsers == {"u1", "u2"}
MCfgs == << C0, [C0 EXCEPT !.versions = << << <<1, 2, 1>>, 1>> >>] >>
V == {<<1, 2, 1>>, <<1, 3, 0>>, <<1, 2, 10>>, <<1, 10, 0>>, <<1, 4, 0>>}
MOps(x) ==
  (IF Len(x.daos) < 2 THEN {Ask(r, v) : r \in {New20(<< <<"u1", 2>> >>), New721, R0}, v \in V \cup {<<>>}} ELSE {})
  \cup {[op |-> "relver", v |-> v, set |-> n] : v \in {<<1, 2, 10>>, <<1, 10, 0>>, <<1, 2, 1>>}, n \in {1, 3}}
  \cup {[op |-> "facconf", by |-> b, c20 |-> a, c721 |-> c, to |-> t, reg |-> ""] : b \in {"facadmin", "u1"}, a \in {"", "cw20b"}, c \in {"", "cw721b"}, t \in {"", "u1"}}
  \cup {[op |-> "facconf", by |-> b, c20 |-> a, c721 |-> "", to |-> "", reg |-> g] : b \in {"facadmin", "u1"}, a \in {"", "cw20b"}, g \in {"ver2"}}
  \cup {[op |-> "facconf", by |-> x.adm, c20 |-> "", c721 |-> "", to |-> "", reg |-> "ver"] : y \in {y \in {1} : x.reg = "ver2"}}
=============================================================================
