------------------------------ MODULE MCRejected ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash", "tok"}
MRew == {"cash", "tok"}
(* proposals that do not pass, or are attempted too early, never have effects *)

M(n) == AMeta([name |-> n])
B == [dao |-> [u1 |-> 3, u2 |-> 3, tre |-> 4], cash |-> [tre |-> 846, gc |-> 3, ent |-> 2], tok |-> [tre |-> 846]]
Vers == << << <<1, 2, 1>>, 1>>, << <<1, 3, 0>>, 2>>, << <<2, 0, 0>>, 3>> >>
K(kind) == [Cfg0 EXCEPT !.kind = kind, !.bal = B, !.gov = Gov(50, 50, -1, 2, -1, FALSE), !.white = <<"cash">>, !.versions = Vers, !.start = 1]
KD == [K("denom") EXCEPT !.setup = <<OStake("u1", 1)>>]
KM == [K("multisig") EXCEPT !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.council = Council(<<"u2">>, 50, 50, <<"update_metadata">>)]
KT == [K("token") EXCEPT !.setup = <<OStake("u1", 1)>>, !.minw = 1]
KN == [K("nft") EXCEPT !.bal = [cash |-> [tre |-> 846, gc |-> 3, ent |-> 2], tok |-> [tre |-> 846]], !.nft = [a |-> "u1", b |-> "u2", c |-> "tre"], !.setup = <<OStakeNft("u1", "a", "u1")>>]
Enact(x, acts) == LET n == Len(x.props) + 1 IN [op |-> "seq", ops |-> <<OPropose("u1", acts), OVote("u1", n, 0), OTick(x.t + x.gov.dur), OExec("u2", n)>>]
C3 == Council(<<"u2", "u3">>, 50, 60, <<"update_metadata", "upgrade_dao">>)
Good == { M("n1"), AMeta([desc |-> "none", tw |-> "t9"]), AGov([q |-> 60]), AGov([dur |-> 3, early |-> TRUE]), AGov([veto |-> 40, thr |-> 70]), AGov([ul |-> [k |-> "time", n |-> 3]]),
          AGov([ul |-> [k |-> "height", n |-> 0]]), AGov([dur |-> 1, ul |-> [k |-> "time", n |-> 1]]), ACouncil(C3), ACouncil(NoCouncil),
          AWhite(<<"tok", "dao">>, <<"cash">>), AWhite(<<"m1155_a">>, <<>>), ANftw(<<"nft", "nftx">>, <<>>), ANftw(<<>>, <<"nft">>),
          AFund("u2", << <<"cash", 2>>, <<"tok", 1>> >>), AFund("u1", << <<"cash", 2>>, <<"cash", 3>> >>), AUpg(<<1, 3, 0>>, <<>>), AUpg(<<2, 0, 0>>, << << <<2, 0, 0>>, "m2">> >>),
          AExec(<<MSend("cash", "u1", 2)>>), AExec(<<MSend("cash", "u1", 1), MSend("cash", "u2", 2)>>), ATre(<<MSend("tok", "u1", 2), MSend("cash", "u2", 1)>>), AEnt(<<MSend("cash", "u2", 1)>>),
          ADist(<< <<"cash", 840>> >>), AMinw(2), AExec(<<MSetAtt("t1")>>) }
Bad == { AFund("u2", << <<"cash", 847>> >>), AFund("u2", << <<"cash", 1>>, <<"tok", 847>> >>), AExec(<<MSend("cash", "u1", 1), MBad>>), ATre(<<MSend("cash", "u1", 900)>>), AEnt(<<MSend("cash", "u1", 3)>>),
         ADist(<< <<"tok", 840>> >>), ADist(<< <<"cash", 1680>> >>), AGov([ul |-> [k |-> "time", n |-> 1]]), AGov([dur |-> 5, ul |-> [k |-> "time", n |-> 4]]), AEnt(<<MSetAtt("t1")>>), ATre(<<MBad>>),
         [AFund("u2", << <<"cash", 1>> >>) EXCEPT !.remote = "j1"], [AWhite(<<"tok">>, <<>>) EXCEPT !.remote = "j1"], [ATre(<<>>) EXCEPT !.remote = "j1"],
         AUpg(<<1, 3, 0>>, << << <<1, 3, 0>>, "fail">> >>), AUpg(<<2, 0, 0>>, << << <<2, 0, 0>>, "nojson">> >>), AUpg(<<1, 3, 0>>, << << <<1, 3, 0>>, "a">>, << <<1, 3, 0>>, "b">> >>) }

MCfgs == <<[KD EXCEPT !.gov = Gov(60, 50, 40, 2, -1, TRUE), !.setup = <<OStake("u1", 2), OStake("u2", 1)>>], KM>>
L == {<<M("n1"), AFund("u2", << <<"cash", 2>> >>)>>, <<AMinw(2), AGov([q |-> 60])>>, <<AWhite(<<"tok">>, <<>>)>>, <<AFund("u2", << <<"cash", 900>> >>)>>}
MOps(x) ==
  (IF x.props = <<>> THEN {OPropose("u1", l) : l \in L} ELSE {})
  \cup {OVote(u, 1, o) : u \in {"u1", "u2"}, o \in {0, 1, 2, 3}}
  \cup {OExec(u, 1) : u \in {"u1", "u3"}}
  \cup (IF x.t < 3 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
