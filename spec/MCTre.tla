------------------------------ MODULE MCTre ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash", "gold", "tok"}
MRew == {"cash", "tok"}
(* the treasury's money *)
B == [dao |-> [u1 |-> 4], cash |-> [tre |-> 1685, u1 |-> 2], gold |-> [tre |-> 2], tok |-> [tre |-> 7]]
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = B, !.white = <<"cash">>, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.setup = <<OStake("u1", 2)>>]
MCfgs == << C("denom"), [C("token") EXCEPT !.white = <<"cash", "tok">>] >>
Sp(b, to, l) == [op |-> "spend", by |-> b, to |-> to, assets |-> l]
Lists == { << <<"cash", 2>> >>, << <<"cash", 1>>, <<"gold", 2>>, <<"tok", 1>> >>, << <<"cash", 1>>, <<"gold", 3>> >>, << <<"tok", 2>>, <<"tok", 2>> >>,
           << <<"gold", 1>>, <<"gold", 1>> >>, << <<"cash", 1>>, <<"tok", 8>> >>, << <<"m1155_a", 1>> >> }
Di(b, l) == [op |-> "tredist", by |-> b, funds |-> l]
Ms(b, l) == [op |-> "tremsgs", by |-> b, msgs |-> l]
MOps(x) ==
  {Sp(x.admin, to, l) : to \in {"u2"}, l \in Lists} \cup {Sp(x.admin, to, << <<"cash", 2>>, <<"tok", 1>> >>) : to \in {"u1", "gc", "dis"}}
  \cup {Sp(b, "u2", << <<"cash", 2>> >>) : b \in {"u1", "ent", "gov", "mem", "dis", "creator", "gc", "out", "cou"} \ {x.admin}}
  \cup {Di(x.admin, l) : l \in { << <<"cash", 840>> >>, << <<"cash", 840>>, <<"tok", 2>> >>, << <<"gold", 2>> >>, << <<"cash", 840>>, <<"m1155_a", 1>> >>, << <<"cash", 840>>, <<"cash", 840>> >>, << <<"tok", 4>>, <<"tok", 2>> >>, << <<"tok", 2>>, <<"cash", 840>>, <<"tok", 2>> >>, << <<"tok", 4>>, <<"tok", 4>> >> }} \cup {Di(b, << <<"cash", 840>> >>) : b \in {"u1", "ent"} \ {x.admin}}
  \cup {Ms(x.admin, l) : l \in { <<MSend("cash", "u2", 1), MSend("tok", "u1", 1)>>, <<MSend("gold", "u2", 1), MSend("gold", "u2", 2)>>, <<MSend("cash", "u2", 1), MBad>>, <<MUnparse>> }}
  \cup {Ms(b, <<MSend("cash", "u2", 1)>>) : b \in {"u1", "ent"} \ {x.admin}}
  \cup {[op |-> "treadmin", by |-> b, to |-> to] : b \in {x.admin}, to \in {"u1", "gc"}} \cup {[op |-> "treadmin", by |-> b, to |-> "u2"] : b \in {"u2", "ent"}}
  \cup {[op |-> "transfer", by |-> "u1", asset |-> "cash", to |-> "tre", amt |-> 2]}
=============================================================================
