------------------------------ MODULE MCWalk ------------------------------
EXTENDS Props, Base, Randomization
(* long random histories of DAOs of every kind, everything enabled at once *)
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash", "tok"}
MRew == {"cash", "tok"}
Rich == [u3 |-> 33600, tre |-> 8400]
Vers == << << <<1, 2, 1>>, 1>>, << <<1, 3, 0>>, 2>>, << <<2, 0, 0>>, 3>> >>
C(k, g, cou, att, mw, ul) ==
  [Cfg0 EXCEPT !.kind = k, !.gov = g, !.council = cou, !.att = att, !.minw = mw, !.ul = ul, !.white = <<"cash">>, !.gwhite = <<"tok">>, !.versions = Vers, !.start = 1, !.hist = TRUE,
     !.bal = [dao |-> [u1 |-> 3, u2 |-> 3, u3 |-> 2], cash |-> Rich, tok |-> Rich], !.setup = (IF att = "" THEN <<>> ELSE <<OSign("u1"), OSign("u2")>>) \o <<OStake("u1", 2), OStake("u2", 2)>>]
N(c) == [c EXCEPT !.bal = [cash |-> Rich, tok |-> Rich], !.nft = [a |-> "u1", b |-> "u1", c |-> "u1", d |-> "u2", e |-> "u2", f |-> "u2", g |-> "u3", h |-> "tre"],
          !.setup = <<OStakeNft("u1", "a", "u1"), OStakeNft("u1", "b", "u1"), OStakeNft("u2", "d", "u2")>>]
G(c) == [c EXCEPT !.bal = [cash |-> Rich, tok |-> Rich], !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.setup = IF c.att = "" THEN <<>> ELSE <<OSign("u1"), OSign("u2")>>]
Al == <<"update_metadata", "update_asset_whitelist", "upgrade_dao">>
Co == Council(<<"u2", "u3">>, 50, 60, Al)
MCfgs == << C("denom", Gov(40, 50, 34, 4, -1, TRUE), Co, "", 2, [k |-> "time", n |-> 5]),
            C("denom", Gov(50, 60, -1, 20, 1, TRUE), Co, "t1", -1, [k |-> "height", n |-> 3]),
            C("token", Gov(50, 50, -1, 3, -1, FALSE), Co, "", -1, [k |-> "height", n |-> 2]),
            [C("token", Gov(30, 67, 50, 12, 2, TRUE), NoCouncil, "t1", 2, [k |-> "time", n |-> 12]) EXCEPT !.half = TRUE, !.hist = FALSE],
            N(C("nft", Gov(40, 50, 30, 3, -1, FALSE), Co, "", 2, [k |-> "time", n |-> 3])),
            N(C("nft", Gov(50, 50, -1, 15, 1, TRUE), NoCouncil, "", -1, [k |-> "height", n |-> 2])),
            G(C("multisig", Gov(50, 50, -1, 4, -1, TRUE), Co, "t1", 2, [k |-> "height", n |-> 1])),
            G(C("multisig", Gov(34, 60, 40, 3, -1, FALSE), Co, "", -1, [k |-> "height", n |-> 1])) >>
Acts1 == { AMeta([name |-> "n1"]), AMeta([desc |-> "d1", logo |-> "none"]), AFund("u2", << <<"cash", 2>>, <<"tok", 1>> >>), AFund("u1", << <<"cash", 9000>> >>), AGov([q |-> 60]), AGov([dur |-> 6, early |-> TRUE]),
           AGov([veto |-> 40, thr |-> 70]), AGov([ul |-> [k |-> "time", n |-> 6]]), ACouncil(NoCouncil), ACouncil(Council(<<"u1", "u3">>, 60, 50, Al)), AWhite(<<"tok">>, <<"cash">>), AWhite(<<"cash">>, <<>>),
           ANftw(<<"nft">>, <<>>), AUpg(<<1, 3, 0>>, <<>>), AUpg(<<2, 0, 0>>, << << <<1, 3, 0>>, "m">> >>), AMsig(<< <<"u3", 2>>, <<"u1", 1>> >>), AMsig(<< <<"u2", 0>> >>), ADist(<< <<"cash", 840>>, <<"tok", 840>> >>),
           AMinw(2), AMinw(1), ATre(<<MSend("tok", "u2", 2)>>), AExec(<<MSetAtt("t9")>>), AExec(<<[m |-> "rmatt"]>>) }
Pairs == {<<AMeta([name |-> "n2"]), AFund("u3", << <<"cash", 5>> >>)>>, <<AGov([q |-> 45]), AFund("u1", << <<"cash", 9000>> >>)>>, <<AMinw(3), AGov([thr |-> 55])>>, <<>>}
ActLists == {<<a>> : a \in Acts1} \cup Pairs
Late(x) == {i \in 1..Len(x.props) : x.props[i].res = "open"} \cup (IF x.props = <<>> THEN {1} ELSE {Len(x.props)})
Some(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
Free(x) == [u \in Users |-> {i \in DOMAIN x.nft : x.nft[i] = u}]
Own(x) == [u \in Users |-> {i \in DOMAIN x.nst : x.nst[i] = u}]
Via(x) == IF Kind(x) = "denom" THEN "native" ELSE "cw20"
Membership(x) ==
  CASE Kind(x) \in {"denom", "token"} -> {OStake(u, n) : u \in Users, n \in 1..2} \cup {OUnstake(u, n) : u \in Users, n \in 1..3} \cup {OStakeFor(u, v, 1, "dao") : u, v \in Users}
    [] IsNft(x) -> UNION {{OStakeNft(u, i, v) : i \in Free(x)[u], v \in Users} : u \in Users} \cup UNION {{OUnstakeN(u, <<i>>) : i \in Own(x)[u]} : u \in Users}
                   \cup UNION {{OUnstakeN(u, <<i, j>>) : i, j \in Own(x)[u]} : u \in Users}
    [] OTHER -> {OEdit("gc", "mem", << <<u, n>> >>) : u \in Users, n \in 0..2} \cup {OEdit("gc", "mem", << <<"u1", n>>, <<"u2", 2 - n>> >>) : n \in 0..2} \cup {OSet("gc", "mem", << <<u, 2>>, <<v, 1>> >>) : u, v \in Users}
Proposals(x) ==
  IF Len(x.props) >= 6 THEN {}
  ELSE {OPropose(u, l) : u \in Users, l \in Some(3, ActLists)} \cup {OCPropose(u, <<a>>) : u \in Users, a \in Some(3, Acts1)}
       \cup (IF x.gov.mindep < 0 THEN {} ELSE IF IsNft(x) THEN UNION {{ONftDeposit(u, l, <<i>>, TRUE, o) : i \in Free(x)[u], l \in Some(2, ActLists), o \in {"none", "u2"}} : u \in Users}
             ELSE {ODeposit(u, l, Via(x), n, "dao", o) : u \in Users, l \in Some(2, ActLists), n \in 1..2, o \in {"none", "u3"}})
Voting(x) == {OVote(u, i, o) : u \in Users, i \in Late(x), o \in 0..3} \cup {OCVote(u, i, o) : u \in Users, i \in Late(x), o \in 0..3}
Resolve(x) == {OExec(u, i) : u \in Users, i \in Late(x)}
Rewards(x) == {ODist("u3", a, 840) : a \in RewAssets} \cup {OClaimRew(u, u, <<"cash", "tok">>) : u \in Users} \cup {OClaimRew("u1", "u2", <<"cash">>)} \cup {OMinw("gc", n) : n \in 0..3}
Claims(x) == {OClaim(u) : u \in Users}
Att(x) == {OSign(u) : u \in Users} \cup {OSetAtt("gc", "t2"), ORmAtt("gc")}
Other(x) == {OEdit("gc", "cou", << <<"u1", 1>> >>), OEdit("gc", "cou", << <<"u2", 0>> >>), [op |-> "treadmin", by |-> "u1", to |-> "u1"], [op |-> "spend", by |-> "u2", to |-> "u2", assets |-> << <<"cash", 1>> >>],
             [op |-> "spend", by |-> "gc", to |-> "u2", assets |-> << <<"cash", 1>> >>], [op |-> "meta", by |-> "gc", f |-> [name |-> "n9"]], [op |-> "unlock", by |-> "gc", ul |-> [k |-> "height", n |-> 1]]}
Ends(x) == {x.props[i].en : i \in 1..Len(x.props)}
Ticks(x) == {OTick(x.t + 1), OTick(x.t + 2)} \cup {OTick(e) : e \in {e \in Ends(x) : e > x.t}}
Live(x, S) == {o \in S : LET r == Apply(x, o) IN r.ok = "y" /\ r.s # x}
(* mostly operations with an effect, now and then one that must be refused *)
From(x, k, S) == Some(k, Live(x, Some(12, S))) \cup Some(1, S)
MOps(x) == From(x, 4, Membership(x)) \cup From(x, 3, Proposals(x)) \cup From(x, 4, Voting(x)) \cup From(x, 3, Resolve(x)) \cup From(x, 3, Rewards(x)) \cup From(x, 1, Claims(x))
           \cup From(x, 1, Att(x)) \cup Some(1, Other(x)) \cup Some(2, Ticks(x))
=============================================================================
