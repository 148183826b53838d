"""Writes the membership, reward, treasury and identity slices (kept for reference; the modules are committed)."""
import sys; sys.path.insert(0,'/verif/tools')
from mk1 import mod

mod('MCStake','u1 u2','dao cash','cash',r'''
(* staking, unstaking and claims for denom and token DAOs with block and time periods *)
B == [dao |-> [u1 |-> 3, u2 |-> 1], cash |-> [u1 |-> 2]]
C(k, ws, uk, n) == [Cfg0 EXCEPT !.kind = k, !.ws = ws, !.bal = B, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> uk, n |-> n], !.hist = TRUE]
MCfgs == << C("denom", "1", "height", 2), C("token", "1", "time", 1), C("denom", "100000000000000000000", "time", 2),
            [C("token", "1000000", "height", 0) EXCEPT !.setup = <<OStake("u1", 2)>>] >>
MOps(x) ==
  {OStakeFor("u1", f, n, "dao") : f \in {"self", "u2"}, n \in {0, 1, 2}}
  \cup {OStakeFor("u1", "u1", 1, "cash"), OStakeFor("u2", "u2", 1, "dao"), OStakeFor("u2", "u1", 2, "dao")}
  \cup (IF Kind(x) = "denom" THEN {[op |-> "stakemulti", by |-> "u1", amt |-> 1]}
        ELSE {[op |-> "fake20", by |-> b, for |-> "u1", amt |-> 1] : b \in {"u1", "gc", "cashtok"}})
  \cup {OUnstake(u, n) : u \in Users, n \in {0, 1, 2}}
  \cup {OClaim(u) : u \in Users} \cup {OClaimFor("u1", "u2"), OClaimFor("u2", "u2")}
  \cup {[op |-> "unlock", by |-> b, ul |-> [k |-> "time", n |-> 1]] : b \in {"gc", "u1"}}
  \cup (IF x.t < 4 THEN {OTick(x.t + 1)} ELSE {}) \cup (IF x.clm # <<>> /\ x.t < 3 THEN {OTick(x.t + 2)} ELSE {})
''')
mod('MCBatch','u1 u2 u3','dao cash','cash',r'''
(* stakes and claims added in batches (token DAOs) *)
B == [dao |-> [u1 |-> 5, u2 |-> 2], cash |-> [u1 |-> 2]]
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = B, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> "height", n |-> 1], !.setup = <<OStake("u2", 1)>>]
MCfgs == << C("token"), [C("token") EXCEPT !.ws = "1000000", !.att = "text", !.setup = <<OSign("u2"), OStake("u2", 1)>>] >>
St(u, n, l) == [op |-> "addstakes", by |-> u, amt |-> n, list |-> l]
Cl(u, n, l) == [op |-> "addclaims", by |-> u, amt |-> n, list |-> l]
MOps(x) ==
  {St("u1", 2, << <<"u2", 1>>, <<"u3", 1>> >>), St("u1", 2, << <<"u2", 1>>, <<"u2", 1>> >>), St("u1", 1, << <<"u2", 1>>, <<"u3", 1>> >>),
   St("u1", 2, << <<"u2", 1>> >>), St("u1", 1, << <<"u2", 1>>, <<"u3", 0>> >>), St("u1", 3, << <<"u2", 3>> >>), St("u1", 1, << >>), St("u1", 1, << <<"u1", 1>> >>)}
  \cup {Cl("u1", 2, << <<"u2", 1, 1>>, <<"u3", 1, 2>> >>), Cl("u1", 2, << <<"u3", 1, 2>>, <<"u3", 1, 3>> >>), Cl("u1", 1, << <<"u2", 1, 1>>, <<"u3", 1, 2>> >>),
        Cl("u1", 2, << <<"u2", 1, 1>> >>), Cl("u2", 1, << <<"u2", 1, 0>> >>)}
  \cup {OUnstake(u, 1) : u \in {"u2", "u3"}} \cup {OClaim(u) : u \in {"u2", "u3"}}
  \cup (IF x.t < 3 THEN {OTick(x.t + 1)} ELSE {})
''')
mod('MCNft','u1 u2','cash','cash',r'''
(* NFT staking: ownership, double use, foreign collections, claims *)
C(uk, n) == [Cfg0 EXCEPT !.kind = "nft", !.bal = [cash |-> [u1 |-> 0]], !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u2"],
                         !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> uk, n |-> n], !.hist = TRUE]
MCfgs == << C("height", 2), [C("time", 1) EXCEPT !.setup = <<OStakeNft("u1", "a", "u1"), OStakeNft("u2", "c", "u1")>>] >>
X(u, id, v) == [op |-> "stakenft", by |-> u, id |-> id, for |-> v, coll |-> "nftx"]
MOps(x) ==
  {OStakeNft(u, i, v) : u \in {"u1"}, i \in {"a", "b", "c"}, v \in Users} \cup {OStakeNft("u2", i, "u2") : i \in {"a", "c", "d"}}
  \cup {[op |-> "fakenft", by |-> b, for |-> "u1", id |-> "b"] : b \in {"u1", "gc"}}
  \cup {OUnstakeN("u1", l) : l \in {<<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"a", "a">>, <<"a", "c">>, <<"d">>, <<"zz">>}} \cup {OUnstakeN("u2", l) : l \in {<<"c">>, <<"a">>, <<"c", "d">>}}
  \cup {OClaim(u) : u \in Users} \cup {OClaimFor("u1", "u2")}
  \cup {[op |-> "addclaimnft", by |-> "u2", for |-> "u1", id |-> "d", coll |-> "nft", rel |-> 2]}
  \cup (IF x.t < 4 THEN {OTick(x.t + 1)} ELSE {}) \cup (IF x.clm # <<>> /\ x.t < 3 THEN {OTick(x.t + 2)} ELSE {})
''')
mod('MCMsig','u1 u2 u3','dao cash','cash',r'''
(* multisig and council member lists *)
C == [Cfg0 EXCEPT !.kind = "multisig", !.bal = [cash |-> [tre |-> 1680]], !.members = << <<"u1", 3>>, <<"u2", 2>> >>,
                  !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.white = <<"cash">>, !.hist = TRUE, !.council = Council(<<"u1", "u3">>, 50, 50, <<"default">>)]
MCfgs == << C, [C EXCEPT !.kind = "denom", !.members = <<>>, !.bal = [dao |-> [u1 |-> 1], cash |-> [u1 |-> 0]], !.gov = Gov(50, 50, -1, 1, 0, FALSE)] >>
Lists == { << <<"u1", 0>> >>, << <<"u1", 1>>, <<"u2", 0>> >>, << <<"u3", 4>> >>, << <<"u3", 1>>, <<"u1", 2>>, <<"u2", 3>> >>, <<>>, << <<"u2", 2>> >> }
Dups == { << <<"u1", 1>>, <<"u1", 2>> >>, << <<"u2", 2>>, <<"u3", 1>>, <<"u2", 0>> >> }
MOps(x) ==
  {OEdit(b, c, l) : b \in {"gc"}, c \in {"mem", "cou"}, l \in Lists \cup Dups} \cup {OSet("gc", c, l) : c \in {"mem", "cou"}, l \in Lists \cup Dups}
  \cup {OEdit(b, c, << <<"u3", 4>> >>) : b \in {"u1", "ent", "mem"}, c \in {"mem", "cou"}} \cup {OSet(b, c, << <<"u3", 4>> >>) : b \in {"u1", "ent"}, c \in {"mem", "cou"}}
  \cup {OUnstake("u1", 1), OClaim("u1")}
  \cup (IF x.t < 3 THEN {OTick(x.t + 1)} ELSE {})
''')
mod('MCSpread','u1 u2','dao cash','cash',r'''
(* every membership change reaches open votes and reward weights *)
Cash == [u2 |-> 8400]
A == <<AMeta([name |-> "n1"])>>
C(k) == [Cfg0 EXCEPT !.kind = k, !.white = <<"cash">>, !.gov = Gov(50, 50, -1, 2, -1, FALSE), !.ul = [k |-> "time", n |-> 2],
                     !.bal = [dao |-> [u1 |-> 4, u2 |-> 2], cash |-> Cash], !.setup = <<OStake("u1", 2), OStake("u2", 1)>>]
N == [C("nft") EXCEPT !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u2"], !.bal = [cash |-> Cash],
        !.setup = <<OStakeNft("u1", "a", "u1"), OStakeNft("u1", "b", "u1"), OStakeNft("u2", "c", "u2")>>]
G == [C("multisig") EXCEPT !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.bal = [cash |-> Cash], !.setup = <<>>]
MCfgs == << C("denom"), [C("token") EXCEPT !.ws = "1000000"], N, G, [C("token") EXCEPT !.minw = 2] >>
Change(x) ==
  CASE Kind(x) \in {"denom", "token"} -> {OStake("u1", 1), OStakeFor("u1", "u2", 1, "dao"), OUnstake("u1", 1), OUnstake("u1", 2), OUnstake("u2", 1)}
         \cup (IF Kind(x) = "token" THEN {[op |-> "addstakes", by |-> "u1", amt |-> 2, list |-> << <<"u1", 1>>, <<"u2", 1>> >>]} ELSE {})
    [] IsNft(x) -> {OStakeNft("u2", "d", "u1"), OUnstakeN("u1", <<"a">>), OUnstakeN("u1", <<"a", "b">>), OUnstakeN("u2", <<"c">>), OUnstakeN("u2", <<"c", "d">>)}
    [] OTHER -> {OEdit("gc", "mem", << <<"u1", 0>> >>), OEdit("gc", "mem", << <<"u1", 1>>, <<"u2", 4>> >>), OSet("gc", "mem", << <<"u2", 2>> >>), OSet("gc", "mem", << <<"u1", 3>>, <<"u2", 1>> >>)}
MOps(x) ==
  Change(x)
  \cup (IF Len(x.props) < 2 THEN {OPropose("u1", A)} ELSE {})
  \cup {OVote(u, i, 0) : u \in Users, i \in 1..Len(x.props)} \cup {OVote("u1", i, 1) : i \in 1..Len(x.props)}
  \cup (IF \E p \in 1..Len(x.props) : TRUE THEN {ODist("u2", "cash", 840)} ELSE {})
  \cup (IF x.t < 2 THEN {OTick(x.t + 1)} ELSE {}) \cup (IF x.t = 0 /\ Len(x.props) > 0 THEN {OTick(2)} ELSE {})
''')
mod('MCRew','u1 u2 u3','dao cash gold tok','cash gold tok',r'''
(* reward shares, minimum weight and claims; shares are whole numbers by choice of amounts *)
Rich == [u3 |-> 84000]
C(k, ws, mw) == [Cfg0 EXCEPT !.kind = k, !.ws = ws, !.white = <<"cash", "gold", "tok">>, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.minw = mw,
                     !.bal = [dao |-> [u1 |-> 4, u2 |-> 2], cash |-> Rich, gold |-> Rich, tok |-> Rich], !.setup = <<OStake("u1", 2), OStake("u2", 1)>>]
MCfgs == << C("denom", "1", -1), C("token", "1000000", 2),
            [C("multisig", "1", 2) EXCEPT !.members = << <<"u1", 3>>, <<"u2", 1>> >>, !.setup = <<ODist("u3", "cash", 840)>>],
            [C("denom", "1", 1) EXCEPT !.setup = <<OStake("u1", 2), ODist("u3", "cash", 840), OMinw("gc", 3), OStake("u2", 2)>>] >>
Change(x) ==
  CASE Kind(x) \in {"denom", "token"} -> {OStake("u1", 1), OStake("u2", 1), OUnstake("u1", 1), OUnstake("u2", 1), OUnstake("u1", 2)}
    [] OTHER -> {OEdit("gc", "mem", << <<"u1", 0>> >>), OEdit("gc", "mem", << <<"u1", 1>>, <<"u2", 3>> >>), OSet("gc", "mem", << <<"u2", 2>>, <<"u1", 2>> >>)}
MOps(x) ==
  Change(x)
  \cup {ODist("u3", a, 840) : a \in {"cash", "tok"}} \cup {[op |-> "dist2", by |-> "u3", funds |-> << <<"cash", 840>>, <<"gold", 1680>> >>]}
  \cup {OMinw("gc", w) : w \in {0, 2, 3}} \cup {OMinw("u1", 1)}
  \cup {OClaimRew("u1", "u1", <<"cash", "cash", "tok">>), OClaimRew("u2", "u2", <<"cash", "gold">>), OClaimRew("u1", "u2", <<"cash">>), OClaimRew("u1", "u1", <<>>)}
''')
mod('MCRound','u1 u2 u3','dao cash tok','cash tok',r'''
(* shares that are not whole numbers *)
Rich == [u3 |-> 9000]
C(k, ws, mw) == [Cfg0 EXCEPT !.kind = k, !.ws = ws, !.white = <<"cash", "tok">>, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.minw = mw, !.round = TRUE,
                     !.bal = [dao |-> [u1 |-> 4, u2 |-> 4], cash |-> Rich, tok |-> Rich], !.setup = <<OStake("u1", 2), OStake("u2", 1)>>]
MCfgs == << C("denom", "1", -1), C("token", "1000000", 2), [C("token", "1000000000000", -1) EXCEPT !.setup = <<OStake("u1", 3), OStake("u2", 4)>>] >>
MOps(x) ==
  {OUnstake("u1", 1), OStake("u2", 1), OUnstake("u2", 1)}
  \cup {ODist("u3", "cash", n) : n \in {1, 7}} \cup {ODist("u3", "tok", 10)}
  \cup {OMinw("gc", w) : w \in {0, 2} \ {x.minw}}
  \cup {OClaimRew(u, u, <<"cash", "tok">>) : u \in {"u1", "u2"}}
''')
LONG='''
Name(n) == "a" \\o ToString(n)
Long(k, n) == [i \\in 1..n |-> k \\o ToString(100 + i)]
'''
mod('MCRewWhite','u1 u2','dao cash gold tok tokb z','cash gold tok tokb z',LONG+r'''
(* which assets may be distributed: the lists of the treasury and of the factory, however long *)
Rich == [u2 |-> 8400]
C(w, g) == [Cfg0 EXCEPT !.white = w, !.gwhite = g, !.gov = Gov(50, 50, -1, 1, -1, FALSE),
                     !.bal = [dao |-> [u1 |-> 2], cash |-> Rich, gold |-> Rich, tok |-> Rich, tokb |-> Rich, z |-> Rich], !.setup = <<OStake("u1", 1)>>]
MCfgs == << C(<<"cash", "tok">>, <<"gold">>), C(Long("b", 49) \o <<"cash">>, <<>>), C(Long("b", 35) \o <<"z">> \o Long("cw", 40) \o <<"tokb">>, Long("g", 40) \o <<"gold">>),
            C(Long("b", 130) \o <<"z">>, Long("cw", 35) \o <<"tok">>), C(Long("b", 30) \o <<"tok">>, <<>>), C(Long("b", 100) \o <<"tok">>, <<>>), C(<<>>, <<"cash">>),
            C(Long("b", 29) \o <<"z">>, <<>>), C(Long("b", 99) \o <<"z">> \o Long("cw", 2), <<>>), [C(<<"cash">>, <<>>) EXCEPT !.setup = <<>>], [C(<<"cash">>, <<>>) EXCEPT !.minw = 2] >>
MOps(x) ==
  {ODist("u2", a, 840) : a \in RewAssets}
  \cup {[op |-> "dist2", by |-> "u2", funds |-> l] : l \in { << <<"cash", 840>>, <<"gold", 840>> >>, << <<"cash", 840>>, <<"z", 840>> >>, << <<"gold", 840>>, <<"z", 840>> >> }}
  \cup {[op |-> "tredist", by |-> "u1", funds |-> << <<"cash", 840>> >>], [op |-> "disw", by |-> "u1", edits |-> << <<"u1", 9>> >>]}
  \cup {[op |-> "white", by |-> "gc", add |-> <<"z">>, rem |-> <<"cash">>]}
  \cup {OUnstake("u1", 1)} \cup {OStake("u1", 1)} \cup {OMinw("gc", 2)}
''')
USERS=' '.join('u%d'%(100+i) for i in range(1,106))
BIG=r'''
U(i) == "u" \o ToString(100 + i)
Nm(i) == "t" \o ToString(100 + i)
'''
mod('MCPaging',USERS,'dao cash','cash',BIG+r'''
(* more members and staked tokens than fit on a page *)
N == 105
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = [dao |-> [u101 |-> 300], cash |-> [u101 |-> 0]]]
All == [i \in 1..N |-> <<U(i), 1 + (i % 3)>>]
RECURSIVE SumL(_)
SumL(l) == IF l = <<>> THEN 0 ELSE Head(l)[2] + SumL(Tail(l))
Toks == {Nm(i) : i \in 1..N}
MCfgs == << [C("multisig") EXCEPT !.members = All, !.bal = [cash |-> [u101 |-> 0]]],
            [C("token") EXCEPT !.setup = <<[op |-> "addstakes", by |-> "u101", amt |-> SumL(All), list |-> All]>>],
            [C("denom") EXCEPT !.setup = [i \in 1..N |-> OStakeFor("u101", U(i), 1 + (i % 3), "dao")]] >>
MOps(x) ==
  CASE Kind(x) = "multisig" -> {OEdit("gc", "mem", << <<"u150", 0>>, <<"u151", 7>> >>), OSet("gc", "mem", [i \in 1..60 |-> <<U(i), 2>>])}
    [] IsNft(x) -> {OUnstakeN("u102", <<"t102">>), OUnstakeN("u102", [i \in 1..55 |-> Nm(i)]), OUnstakeN("u150", <<"t150">>)}
    [] OTHER -> {OUnstake("u150", 1), OUnstake("u105", 3), OStakeFor("u101", "u204", 1, "dao")}
''')
mod('MCPagingN',USERS,'dao cash','cash',BIG+r'''
(* more members and staked tokens than fit on a page *)
N == 105
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = [dao |-> [u101 |-> 300], cash |-> [u101 |-> 0]]]
All == [i \in 1..N |-> <<U(i), 1 + (i % 3)>>]
RECURSIVE SumL(_)
SumL(l) == IF l = <<>> THEN 0 ELSE Head(l)[2] + SumL(Tail(l))
Toks == {Nm(i) : i \in 1..N}
MCfgs == << [C("nft") EXCEPT !.bal = [cash |-> [u101 |-> 0]], !.nft = [x \in Toks |-> "u101"], !.setup = [i \in 1..N |-> OStakeNft("u101", Nm(i), "u102")]],
            [C("nft") EXCEPT !.bal = [cash |-> [u101 |-> 0]], !.nft = [x \in Toks |-> "u101"], !.setup = [i \in 1..N |-> OStakeNft("u101", Nm(i), U(i))]] >>
MOps(x) ==
  CASE Kind(x) = "multisig" -> {OEdit("gc", "mem", << <<"u150", 0>>, <<"u151", 7>> >>), OSet("gc", "mem", [i \in 1..60 |-> <<U(i), 2>>])}
    [] IsNft(x) -> {OUnstakeN("u102", <<"t102">>), OUnstakeN("u102", [i \in 1..55 |-> Nm(i)]), OUnstakeN("u150", <<"t150">>)}
    [] OTHER -> {OUnstake("u150", 1), OUnstake("u105", 3), OStakeFor("u101", "u204", 1, "dao")}
''')
mod('MCManyV',USERS,'cash','cash',BIG+r'''
(* more voters than fit on a page *)
N == 105
A == <<AMeta([name |-> "n1"])>>
MCfgs == << [Cfg0 EXCEPT !.kind = "multisig", !.members = [i \in 1..N |-> <<U(i), 1 + (i % 3)>>], !.bal = [cash |-> [u101 |-> 0]],
               !.setup = <<OPropose("u101", A), OPropose("u102", A)>> \o [i \in 1..N |-> OVote(U(i), 2, i % 4)] \o [i \in 1..55 |-> OVote(U(2 * i - 1 - (IF i > 50 THEN 53 ELSE 0)), 1, i % 2)]] >>
MOps(x) == {OVote("u150", 2, 0), OVote("u150", 1, 1), OEdit("gc", "mem", << <<"u150", 0>>, <<"u151", 7>> >>), OTick(2), OExec("u101", 2)}
''')
mod('MCManyP','u1 u2','cash','cash',r'''
(* more proposals than fit on a page *)
A == <<AMeta([name |-> "n1"])>>
N == 105
MCfgs == << [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 2>>, <<"u2", 1>> >>, !.bal = [cash |-> [u1 |-> 0]], !.gov = Gov(50, 50, -1, 2, -1, TRUE),
               !.setup = <<OTick(0)>> \o [i \in 1..N |-> OPropose("u1", A)] \o [i \in 1..N |-> OVote("u1", i, i % 2)] \o [i \in 1..60 |-> OExec("u2", i + 20)]] >>
MOps(x) == {OExec("u1", 7), OExec("u1", 96), OPropose("u2", A), OVote("u2", 105, 0), OTick(3)}
''')
mod('MCTre','u1 u2','dao cash gold tok','cash',r'''
(* the treasury's money *)
B == [dao |-> [u1 |-> 4], cash |-> [tre |-> 1685, u1 |-> 2], gold |-> [tre |-> 2], tok |-> [tre |-> 3]]
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = B, !.white = <<"cash">>, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.setup = <<OStake("u1", 2)>>]
MCfgs == << C("denom"), C("token") >>
Sp(b, to, l) == [op |-> "spend", by |-> b, to |-> to, assets |-> l]
Lists == { << <<"cash", 2>> >>, << <<"cash", 1>>, <<"gold", 2>>, <<"tok", 1>> >>, << <<"cash", 1>>, <<"gold", 3>> >>, << <<"tok", 2>>, <<"tok", 2>> >>,
           << <<"gold", 1>>, <<"gold", 1>> >>, << <<"cash", 1>>, <<"tok", 4>> >>, << <<"m1155_a", 1>> >> }
Di(b, l) == [op |-> "tredist", by |-> b, funds |-> l]
Ms(b, l) == [op |-> "tremsgs", by |-> b, msgs |-> l]
MOps(x) ==
  {Sp(x.admin, to, l) : to \in {"u2"}, l \in Lists} \cup {Sp(x.admin, to, << <<"cash", 2>>, <<"tok", 1>> >>) : to \in {"u1", "gc", "dis"}}
  \cup {Sp(b, "u2", << <<"cash", 2>> >>) : b \in {"u1", "ent", "gov", "mem", "dis", "creator", "gc", "out", "cou"} \ {x.admin}}
  \cup {Di(x.admin, l) : l \in { << <<"cash", 840>> >>, << <<"cash", 840>>, <<"tok", 2>> >>, << <<"gold", 2>> >>, << <<"cash", 840>>, <<"cash", 840>> >> }} \cup {Di(b, << <<"cash", 840>> >>) : b \in {"u1", "ent"} \ {x.admin}}
  \cup {Ms(x.admin, l) : l \in { <<MSend("cash", "u2", 1), MSend("tok", "u1", 1)>>, <<MSend("gold", "u2", 1), MSend("gold", "u2", 2)>>, <<MSend("cash", "u2", 1), MBad>>, <<MUnparse>> }}
  \cup {Ms(b, <<MSend("cash", "u2", 1)>>) : b \in {"u1", "ent"} \ {x.admin}}
  \cup {[op |-> "treadmin", by |-> b, to |-> to] : b \in {x.admin}, to \in {"u1", "gc"}} \cup {[op |-> "treadmin", by |-> b, to |-> "u2"] : b \in {"u2", "ent"}}
  \cup {[op |-> "transfer", by |-> "u1", asset |-> "cash", to |-> "tre", amt |-> 2]}
''')
mod('MCWhite','u1','dao cash','cash',LONG+r'''
(* the whitelists *)
C(w, n) == [Cfg0 EXCEPT !.bal = [dao |-> [u1 |-> 4], cash |-> [u1 |-> 2]], !.white = w, !.nftw = n]
MCfgs == << C(<<>>, <<>>), C(<<"cash", "tok", "gold">>, <<"nft">>), C(<<"cash", "cash">>, <<"nft", "nft">>) >>
W(b, a, r) == [op |-> "white", by |-> b, add |-> a, rem |-> r]
Nw(b, a, r) == [op |-> "nftw", by |-> b, add |-> a, rem |-> r]
MOps(x) ==
  {W("gc", a, r) : a \in {<<>>, <<"cash">>, <<"tok", "gold">>, <<"gold", "gold">>, <<"tokb", "iron">>}, r \in {<<>>, <<"cash">>, <<"tok">>, <<"gold", "tokb">>, <<"iron", "iron">>}}
  \cup {Nw("gc", a, r) : a \in {<<>>, <<"nft">>, <<"nftx", "nft">>}, r \in {<<>>, <<"nft">>, <<"nftx">>}}
  \cup {W(b, <<"iron">>, <<"cash">>) : b \in {"u1", "ent", "gov", "dis"}} \cup {Nw(b, <<"nftx">>, <<"nft">>) : b \in {"u1", "ent"}}
  \cup {W("gc", <<"m1155_a">>, <<>>), W("gc", <<"iron", "m1155_a">>, <<"cash">>), W("gc", <<>>, <<"m1155_a">>)}
''')
mod('MCWhiteL','u1','dao cash','cash',LONG+r'''
(* whitelists longer than a page *)
C(w, n) == [Cfg0 EXCEPT !.bal = [dao |-> [u1 |-> 4], cash |-> [u1 |-> 2]], !.white = w, !.nftw = n]
MCfgs == << C(Long("b", 35) \o Long("cw", 70), Long("n", 105)), C(Long("b", 30) \o Long("cw", 1), Long("n", 30)), C(Long("b", 100) \o Long("cw", 3), Long("n", 100)),
            C(Long("b", 29) \o Long("cw", 2), Long("n", 31)), C(Long("b", 105), <<>>), C(Long("cw", 105), <<>>), C(<<"cash">>, <<>>) >>
W(b, a, r) == [op |-> "white", by |-> b, add |-> a, rem |-> r]
Nw(b, a, r) == [op |-> "nftw", by |-> b, add |-> a, rem |-> r]
MOps(x) ==
  {W("gc", a, r) : a \in {<<>>, Long("c", 40), Long("cwx", 35)}, r \in {<<>>, Long("b", 20), <<"cw101">>}} \cup {Nw("gc", a, r) : a \in {<<>>, Long("o", 33)}, r \in {<<>>, Long("n", 5)}}
''')
mod('MCAttest','u1 u2','dao cash','cash',r'''
(* who is shut out by an attestation *)
Rich == [u3 |-> 8400]
A == <<AMeta([name |-> "n1"])>>
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = [dao |-> [u1 |-> 4, u2 |-> 4], cash |-> [u1 |-> 840]], !.white = <<"cash">>, !.gov = Gov(50, 50, -1, 2, -1, FALSE), !.ul = [k |-> "time", n |-> 2],
                     !.att = "text", !.council = Council(<<"u1", "u2">>, 50, 50, <<"update_metadata">>),
                     !.setup = <<OSign("u1"), OStake("u1", 2), OSign("u2"), OStake("u2", 1)>>]
Fin == <<OPropose("u1", A), OCPropose("u1", A), ODist("u1", "cash", 840)>>
MCfgs == << [C("denom") EXCEPT !.setup = @ \o Fin \o <<OUnstake("u2", 0), OSetAtt("gc", "text2"), OSign("u1")>>], [C("token") EXCEPT !.setup = @ \o Fin],
            [C("denom") EXCEPT !.att = "", !.setup = <<OStake("u1", 2), OStake("u2", 1)>> \o Fin],
            [C("nft") EXCEPT !.bal = [cash |-> [u1 |-> 840]], !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u2"],
               !.setup = <<OSign("u1"), OSign("u2"), OStakeNft("u1", "a", "u1"), OStakeNft("u2", "c", "u2")>> \o Fin \o <<OSetAtt("gc", "text2"), OSign("u1")>>] >>
Old(u) == [op |-> "sign", by |-> u, c |-> "att1"]
MOps(x) ==
  {OSign(u) : u \in Users} \cup (IF Cfg(x).att # "" THEN {Old("u2")} ELSE {})
  \cup {OSetAtt("gc", t) : t \in {"text2", ""} \ {x.att, ""}} \cup {OSetAtt("u1", "text3"), ORmAtt("gc"), ORmAtt("u2")}
  \cup {OPropose("u2", A), OCPropose("u2", A), OVote("u2", 1, 0), OCVote("u2", 2, 0), OExec("u2", 1), OVote("u1", 1, 0), OClaimRew("u2", "u2", <<"cash">>)}
  \cup (IF IsNft(x) THEN {OStakeNft("u2", "d", "u2"), OStakeNft("u1", "b", "u2"), OUnstakeN("u2", <<"c">>)} ELSE {OStake("u2", 1), OStakeFor("u1", "u2", 1, "dao"), OUnstake("u2", 1)})
  \cup {OClaim("u2")}
  \cup (IF x.t < 2 THEN {OTick(x.t + 1)} ELSE {})
''')
mod('MCUpg','u1','cash','cash',r'''
(* upgrades along the registry *)
V(a, b, c) == <<a, b, c>>
C(vs, st) == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.bal = [cash |-> [u1 |-> 0]], !.versions = vs, !.start = st]
MCfgs == << C(<< <<V(1,2,1), 1>>, <<V(1,2,2), 2>>, <<V(1,3,0), 3>>, <<V(2,0,0), 4>> >>, 1),
            C(<< <<V(1,1,0), 1>>, <<V(1,1,9), 2>>, <<V(1,2,1), 3>>, <<V(1,10,0), 4>>, <<V(2,0,0), 5>> >>, 1),
            C(<< <<V(1,2,0), 1>>, <<V(2,0,0), 2>>, <<V(1,2,1), 3>>, <<V(1,9,0), 4>> >>, 1),
            C(<< <<V(0,9,9), 1>>, <<V(1,0,0), 2>>, <<V(1,0,1), 3>> >>, 1) >>
Up(b, v, m) == [op |-> "upg", by |-> b, v |-> v, msgs |-> m]
Targets == {V(1,2,1), V(1,2,2), V(1,3,0), V(2,0,0), V(1,10,0), V(1,1,9), V(3,0,0), V(1,2,0), V(1,0,1), V(0,9,9)}
Msgs == { <<>>, << <<V(1,3,0), "m1">> >>, << <<V(1,2,2), "m1">>, <<V(2,0,0), "m2">> >>, << <<V(2,0,0), "fail">> >>, << <<V(1,2,1), "nojson">> >>,
          << <<V(1,3,0), "m1">>, <<V(1,3,0), "m2">> >>, << <<V(9,0,0), "m1">> >>, << <<V(1,9,0), "m3">>, <<V(1,10,0), "m4">> >> }
MOps(x) ==
  {Up("gc", v, m) : v \in Targets, m \in Msgs} \cup {Up(b, V(2,0,0), <<>>) : b \in {"u1", "ent", "gov", "creator", "ver", "fac", "tre"}}
''')
mod('MCMeta','u1','dao cash','cash',r'''
(* metadata and configuration *)
C == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.bal = [dao |-> [u1 |-> 1], cash |-> [u1 |-> 0]], !.att = "text"]
MCfgs == << C, [C EXCEPT !.kind = "denom", !.members = <<>>, !.att = ""], [C EXCEPT !.kind = "token", !.members = <<>>], [C EXCEPT !.kind = "nft", !.members = <<>>] >>
M(b, f) == [op |-> "meta", by |-> b, f |-> f]
E(b, f) == [op |-> "entcfg", by |-> b, f |-> f]
Fs == { [name |-> "n1"], [desc |-> "d1"], [desc |-> "none"], [logo |-> "l1"], [logo |-> "none"], [gh |-> "g1"], [gh |-> "none"], [dc |-> "c1"], [dc |-> "none"], [tw |-> "t1"], [tw |-> "none"],
        [tg |-> "e1"], [tg |-> "none"], [name |-> "n2", tg |-> "e2"], [gh |-> "g3", tw |-> "none", desc |-> "d3"], [name |-> "n4", desc |-> "d4", logo |-> "l4", gh |-> "g4", dc |-> "c4", tw |-> "t4", tg |-> "e4"] }
MOps(x) ==
  {M("gc", f) : f \in Fs} \cup {M(b, [name |-> "x"]) : b \in {"u1", "ent", "gov", "tre", "mem", "creator"}}
  \cup {E("gc", f) : f \in {[ver |-> "ver2"], [fac |-> "fac2"], [ver |-> "ver3", fac |-> "fac3"]}} \cup {E(b, [ver |-> "ver2"]) : b \in {"u1", "ent", "fac", "ver"}}
  \cup (IF x.ecfg.ver = "ver" THEN {OSetAtt("gc", "text2")} ELSE {}) \cup {ORmAtt("gc"), OSetAtt("u1", "text3"), ORmAtt("u1")}
''')
