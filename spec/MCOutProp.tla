----------------------------- MODULE MCOutProp ------------------------------
(* remote actions of proposals: towards chains with and without a deployment, alone and in batches *)
EXTENDS Outposts
MChains == {"chn1", "chn2", "chn3"}
C == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.bal = [luna |-> [out |-> 40], cash |-> [tre |-> 5]], !.gov = Gov(50, 50, -1, 2, -1, TRUE), !.white = <<"cash">>]
Both == <<XDeploy("gc", "chn1", "g1", "A", <<"cash">>), XReply("g1@A", 1, "p1", "good", "terra"), XReply("g1@A", 2, "t1", "good", "terra"),
          XDeploy("gc", "chn2", "g2", "B", <<"cash">>), XReply("g2@B", 3, "p2", "good", "terra"), XReply("g2@B", 4, "t2", "good", "terra")>>
MCfgs == << [C EXCEPT !.setup = Both], [C EXCEPT !.setup = SubSeq(Both, 1, 2)] >>
One(h, ch) == { RFund(h, ch, "u2", << <<"cash", 1>>, <<"tok", 2>> >>), RWhite(h, ch, <<"cash">>, <<"tok">>), RNftw(h, ch, <<"nft">>, <<"nftx">>), RTre(h, ch, <<MSend("cash", "u2", 3)>>), RTre(h, ch, <<>>) }
MOps(x) ==
  {Prop(x, <<a>>) : a \in UNION {One(h, ch) : h \in MChains, ch \in {"A", "B"}}}
  \cup {Prop(x, <<RFund("chn1", "A", "u2", << <<"cash", 1>> >>), a>>) : a \in One("chn2", "B") \cup {RFund("chn3", "A", "u2", << <<"cash", 1>> >>)}}
  \cup {Prop(x, <<RDeploy(h, "g3", "A", <<"cash">>)>>) : h \in MChains}
  \cup {Prop(x, <<RDeploy("chn3", "g3", "A", <<>>), RDeploy("chn3", "g2", "B", <<"tok">>)>>), Prop(x, <<RDeploy("chn3", "g3", "A", <<>>), RFund("chn3", "A", "u2", << <<"cash", 1>> >>)>>)}
  \cup {XReply(Identity(x.pend[i].d), i, "p3", "good", "terra") : i \in DOMAIN x.pend}
=============================================================================
