------------------------------ MODULE MCTally ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3", "u4"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* every assignment of choices to voters of different weight, under many rules *)
W(a, b, c, d) == << <<"u1", a>>, <<"u2", b>>, <<"u3", c>>, <<"u4", d>> >>
T(w, q, th, ve, ws) == [Cfg0 EXCEPT !.kind = "multisig", !.members = w, !.gov = Gov(q, th, ve, 2, -1, FALSE), !.ws = ws,
                          !.setup = <<OPropose("u1", <<AMeta([name |-> "n1"])>>)>>]
Rows == << T(W(5, 3, 1, 1), 50, 50, -1, "1"), T(W(5, 3, 1, 1), 30, 40, 25, "1"), T(W(2, 2, 1, 1), 50, 60, 20, "100000000000000000000"),
           T(W(3, 2, 2, 1), 75, 40, 40, "1"), T(W(4, 3, 2, 1), 100, 100, 50, "1"), T(W(3, 3, 1, 3), 10, 30, 30, "7"),
           T(W(25, 16, 58, 1), 1995, 1334, 1245, "1"), T(W(33, 33, 17, 17), 1334, 1505, 1335, "100000000000000000000"),
           T(W(1, 1, 1, 3), 1333, 1666, 1333, "1"), T(W(1, 1, 1, 3), 1334, 1667, 1834, "7"), T(W(499, 2, 250, 249), 1501, 1500, 1249, "1") >>
More == << T(W(5, 3, 1, 1), 40, 50, 33, "1"), T(W(1, 1, 1, 1), 25, 50, 50, "1"), T(W(4, 4, 4, 8), 60, 67, -1, "1000003"),
           T(W(9, 6, 3, 2), 45, 55, 15, "1"), T(W(2, 1, 1, 1), 20, 25, 100, "1"), T(W(7, 5, 3, 1), 1, 1, 1, "1"),
           T(W(10, 10, 5, 5), 67, 50, 34, "1") >>
CONSTANT Deep
MCfgs == IF Deep THEN Rows \o More ELSE Rows
N(x) == IF x.props = <<>> THEN 9 ELSE Cardinality({u \in MUsers : x.props[1].v[u] < 4})
Last(x) == LET d == {i \in 1..4 : x.props[1].v["u" \o ToString(i)] < 4} IN IF d = {} THEN 0 ELSE CHOOSE m \in d : \A k \in d : k <= m
MOps(x) ==
  IF x.t = 0 THEN {OVote("u" \o ToString(i), 1, o) : i \in (Last(x) + 1)..4, o \in 0..3} \cup {OTick(1)}
  ELSE IF x.t = 1 THEN {OExec("u1", 1)}
  ELSE {}
=============================================================================
