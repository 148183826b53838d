-------------------------------- MODULE Base --------------------------------
(* Configuration and operation constructors shared by the model slices.     *)
EXTENDS Integers, Sequences

NoCouncil == [on |-> FALSE, members |-> <<>>, q |-> 0, thr |-> 0, allowed |-> <<>>]
Council(ms, q, thr, al) == [on |-> TRUE, members |-> ms, q |-> q, thr |-> thr, allowed |-> al]
Gov(q, thr, veto, dur, mindep, early) == [q |-> q, thr |-> thr, veto |-> veto, dur |-> dur, mindep |-> mindep, early |-> early]

Cfg0 == [kind |-> "denom", ws |-> "1", sc |-> [cash |-> "1"], gov |-> Gov(50, 50, -1, 2, -1, FALSE),
         council |-> NoCouncil, ul |-> [k |-> "height", n |-> 2], members |-> <<>>, white |-> <<>>, nftw |-> <<>>,
         gwhite |-> <<>>, gnftw |-> <<>>, minw |-> -1, att |-> "", bal |-> [dao |-> [u1 |-> 0]], nft |-> [x \in {} |-> "u1"],
         setup |-> <<>>, versions |-> <<<< <<1, 2, 1>>, 1>>>>, start |-> 0, dao2 |-> FALSE, hist |-> FALSE, round |-> FALSE, half |-> FALSE, via |-> "", leg |-> [on |-> FALSE]]

OTick(t) == [op |-> "tick", to |-> t]
OStake(u, n) == [op |-> "stake", by |-> u, for |-> u, amt |-> n, asset |-> "dao"]
OStakeFor(u, v, n, a) == [op |-> "stake", by |-> u, for |-> v, amt |-> n, asset |-> a]
OUnstake(u, n) == [op |-> "unstake", by |-> u, amt |-> n]
OUnstakeN(u, ids) == [op |-> "unstake", by |-> u, ids |-> ids]
OStakeNft(u, id, v) == [op |-> "stakenft", by |-> u, id |-> id, for |-> v, coll |-> "nft"]
OLearn == [op |-> "learn", class |-> "cls1", coll |-> "nft"]
OStakeNfts(u, ids, v) == [op |-> "stakenfts", by |-> u, ids |-> ids, for |-> v]
OClaim(u) == [op |-> "claim", by |-> u, user |-> "self"]
OClaimFor(u, v) == [op |-> "claim", by |-> u, user |-> v]
OPropose(u, acts) == [op |-> "propose", by |-> u, acts |-> acts, via |-> "none", dep |-> 0, dasset |-> "dao", dtok |-> <<>>, appr |-> FALSE, own |-> "none"]
ODeposit(u, acts, via, n, a, own) == [op |-> "propose", by |-> u, acts |-> acts, via |-> via, dep |-> n, dasset |-> a, dtok |-> <<>>, appr |-> FALSE, own |-> own]
ONftDeposit(u, acts, toks, appr, own) == [op |-> "propose", by |-> u, acts |-> acts, via |-> "nft", dep |-> 0, dasset |-> "dao", dtok |-> toks, appr |-> appr, own |-> own]
(* a deposit sent together with other coins *)
OMixedDeposit(u, acts, n, extra, own) == [op |-> "propose", by |-> u, acts |-> acts, via |-> "native", dep |-> n, dasset |-> "dao", dtok |-> <<>>, appr |-> FALSE, own |-> own, extra |-> extra]
(* the owner lets the proposer deposit its tokens *)
OLentDeposit(u, acts, toks, own) == [op |-> "propose", by |-> u, acts |-> acts, via |-> "nft", dep |-> 0, dasset |-> "dao", dtok |-> toks, appr |-> TRUE, own |-> own, lend |-> TRUE]
OCPropose(u, acts) == [op |-> "cpropose", by |-> u, acts |-> acts, own |-> "none"]
OVote(u, p, o) == [op |-> "vote", by |-> u, p |-> p, o |-> o]
OCVote(u, p, o) == [op |-> "cvote", by |-> u, p |-> p, o |-> o]
OExec(u, p) == [op |-> "exec", by |-> u, p |-> p]
ODist(u, a, n) == [op |-> "dist", by |-> u, asset |-> a, amt |-> n]
OClaimRew(u, v, as) == [op |-> "claimrew", by |-> u, user |-> v, assets |-> as]
OMig(u, n) == [op |-> "mig", by |-> u, n |-> n]
OMinw(u, w) == [op |-> "minw", by |-> u, w |-> w]
OSign(u) == [op |-> "sign", by |-> u, c |-> "att"]
OSetAtt(u, x) == [op |-> "setatt", by |-> u, text |-> x]
ORmAtt(u) == [op |-> "rmatt", by |-> u]
OHook(u, c, w, l) == [op |-> "hook", by |-> u, c |-> c, what |-> w, who |-> l]
OEdit(u, c, l) == [op |-> "editm", by |-> u, c |-> c, edits |-> l]
OSet(u, c, l) == [op |-> "setm", by |-> u, c |-> c, edits |-> l]

AMeta(f) == [a |-> "meta", f |-> f]
AGov(f) == [a |-> "gov", f |-> f]
ACouncil(c) == [a |-> "council", c |-> c]
AWhite(add, rem) == [a |-> "white", add |-> add, rem |-> rem, remote |-> ""]
ANftw(add, rem) == [a |-> "nftw", add |-> add, rem |-> rem, remote |-> ""]
AFund(to, as) == [a |-> "fund", to |-> to, assets |-> as, remote |-> ""]
AUpg(v, msgs) == [a |-> "upg", v |-> v, msgs |-> msgs]
AExec(msgs) == [a |-> "exec", msgs |-> msgs]
ATre(msgs) == [a |-> "tre", msgs |-> msgs, remote |-> ""]
AEnt(msgs) == [a |-> "ent", msgs |-> msgs]
AMsig(l) == [a |-> "msig", edits |-> l]
ADist(l) == [a |-> "dist", funds |-> l]
AMinw(w) == [a |-> "minw", w |-> w]
MSend(a, to, n) == [m |-> "send", asset |-> a, to |-> to, amt |-> n]
MSetAtt(x) == [m |-> "setatt", text |-> x]
MBad == [m |-> "bad"]
MUnparse == [m |-> "unparse"]
=============================================================================
