------------------------------- MODULE MCOut --------------------------------
(* deployments on two chains, replies in any order, forged, repeated, malformed *)
EXTENDS Outposts
MChains == {"chn1", "chn2"}
C == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.bal = [luna |-> [out |-> 40], cash |-> [tre |-> 5]], !.gov = Gov(50, 50, -1, 2, -1, TRUE), !.white = <<"cash">>, !.dao2 = TRUE]
G(id) == IF id = 1 THEN "p1" ELSE IF id = 2 THEN "p2" ELSE "t3"
MCfgs == << C, [C EXCEPT !.setup = <<XDeploy("gc", "chn1", "g1", "A", <<"cash">>), XReply("g1@A", 1, "p1", "good", "terra")>>] >>
Ids(x) == 1..(x.last + 1)
Who(x, id) == IF id \in DOMAIN x.pend THEN Identity(x.pend[id].d) ELSE "g1@A"
MOps(x) ==
  {XDeploy("gc", "chn1", "g1", "A", <<"cash">>), XDeploy("gc", "chn1", "g2", "B", <<>>), XDeploy("gc", "chn2", "g1", "A", <<>>), XDeploy("gc", "chn2", "g1", "B", <<"cash", "tok">>)}
  \cup {XDeploy(b, "chn1", "g1", "A", <<>>) : b \in {"u1", "ent", "gc2", "out"}}
  \cup {XReply(Who(x, i), i, G(i), "good", "terra") : i \in Ids(x)}
  \cup {XReply(w, i, "p9", "good", "terra") : i \in Ids(x), w \in {"g1@A", "g2@A", "g1@B", "g2@B", "p1@A", "gc", "out", "u1"} }
  \cup {XReply(Who(x, i), i, "p9", f, "terra") : i \in Ids(x), f \in {"none", "bad"}}
  \cup {XReply(Who(x, i), i, "p9", "good", "juno") : i \in Ids(x)}
  \cup {XExec("gc", h, ch, AFund("u2", << <<"cash", 1>> >>)) : h \in MChains, ch \in {"A", "B"}}
  \cup {XExec(b, "chn1", "A", AFund("u2", << <<"cash", 1>> >>)) : b \in {"u1", "ent", "gc2", "tre"}}
=============================================================================
