------------------------------ MODULE Outposts ------------------------------
(* Remote chains: a DAO's proxy and treasury on each of them, the requests  *)
(* under way, the relayed replies, and every IBC transfer sent.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, Base

CONSTANTS Cfgs, Depth, OpSet(_), ObsKeys, Chains

Yes(x) == [ok |-> "y", s |-> x]
No(x) == [ok |-> "n", s |-> x]
None == ""
Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]

(* ask the chain's global proxy for a treasury owned by the DAO's proxy there *)
AskTreasury(x, d, owner) ==
  LET id == x.last + 1 IN
  [x EXCEPT !.last = id, !.pend = Put(@, id, [k |-> "tre", d |-> d]),
            !.sent = Append(@, [k |-> "tre", chan |-> d.chan, to |-> d.gp, cb |-> id, admin |-> owner, white |-> d.white])]
AskProxy(x, d) ==
  LET id == x.last + 1 IN
  [x EXCEPT !.last = id, !.pend = Put(@, id, [k |-> "proxy", d |-> d]),
            !.sent = Append(@, [k |-> "proxy", chan |-> d.chan, to |-> d.gp, cb |-> id])]
Deploy(x, d) ==
  IF x.tre[d.chain] # None THEN No(x)
  ELSE IF x.proxy[d.chain] # None THEN Yes(AskTreasury(x, d, x.proxy[d.chain])) ELSE Yes(AskProxy(x, d))

(* instructions for the treasury on a chain travel through the DAO's own proxy there *)
Instruct(x, chain, chan, a) ==
  IF x.tre[chain] = None \/ x.proxy[chain] = None THEN No(x)
  ELSE Yes([x EXCEPT !.sent = Append(@, [k |-> "exec", chan |-> chan, to |-> x.proxy[chain], cb |-> 0, tre |-> x.tre[chain], what |-> a])])

(* the identity under which a contract on the other side of a channel appears here *)
Identity(d) == d.gp \o "@" \o d.chan
Reply(x, o) ==
  IF o.id \notin DOMAIN x.pend THEN No(x)
  ELSE LET p == x.pend[o.id]
           y == [x EXCEPT !.pend = Drop(@, o.id)]
       IN IF o.by # Identity(p.d) \/ o.pre # "terra" \/ o.form # "good" THEN No(x)
          ELSE IF p.k = "proxy"
               THEN (IF x.proxy[p.d.chain] # None THEN No(x)
                     ELSE Yes(AskTreasury([y EXCEPT !.proxy[p.d.chain] = o.addr], p.d, o.addr)))
               ELSE (IF x.tre[p.d.chain] # None THEN No(x) ELSE Yes([y EXCEPT !.tre[p.d.chain] = o.addr]))

ChainOf(r) == r.chain
Act(x, a) ==
  CASE a.a = "deploy" -> Deploy(x, [chain |-> a.chain, gp |-> a.gp, chan |-> a.chan, white |-> a.white])
    [] a.a = "local" -> Yes(x)
    [] OTHER -> Instruct(x, a.rchain, a.rchan, a)
RECURSIVE Acts(_, _)
Acts(x, l) == IF l = <<>> THEN Yes(x) ELSE LET r == Act(x, Head(l)) IN IF r.ok = "n" THEN r ELSE Acts(r.s, Tail(l))

Apply(x, o) ==
  CASE o.op = "xdeploy" -> IF o.by = "gc" THEN Deploy(x, [chain |-> o.chain, gp |-> o.gp, chan |-> o.chan, white |-> o.white]) ELSE No(x)
    [] o.op = "xexec" -> IF o.by = "gc" THEN Instruct(x, o.rchain, o.rchan, o.a) ELSE No(x)
    [] o.op = "xreply" -> Reply(x, o)
    (* a passed proposal: all of its actions or none, and it is done either way *)
    [] o.op = "seq" -> LET r == Acts(x, o.acts) IN Yes([(IF r.ok = "n" THEN x ELSE r.s) EXCEPT !.n = x.n + 1, !.fee = x.fee + (IF Cfgs[x.c].via = "" THEN 0 ELSE Len(o.acts))])
    [] o.op = "tick" -> Yes([x EXCEPT !.t = o.to])

RECURSIVE Setup(_, _)
Setup(x, ops) == IF ops = <<>> THEN x ELSE LET r == Apply(x, Head(ops)) IN
  IF r.ok = "n" THEN Assert(FALSE, <<"setup refused", Head(ops)>>) ELSE Setup(r.s, Tail(ops))
Fresh(c) == [c |-> c, t |-> -1, proxy |-> [h \in Chains |-> None], tre |-> [h \in Chains |-> None],
             pend |-> [i \in {} |-> 0], last |-> 0, sent |-> <<>>, n |-> 0, fee |-> 0]
InitState(c) == [Setup(Fresh(c), Cfgs[c].setup) EXCEPT !.t = 0]

VARIABLES s, act
vars == <<s, act>>
Init == /\ \E c \in 1..Len(Cfgs) : s = InitState(c)
        /\ act = [o |-> [op |-> "init"], ok |-> "y"]
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in OpSet(s) : LET r == Apply(s, o) IN s' = r.s /\ act' = [o |-> o, ok |-> r.ok]

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
(* a recorded treasury has its proxy, every treasury requested belongs to the recorded proxy *)
I_X01 == /\ \A h \in Chains : s.tre[h] # None => s.proxy[h] # None
         /\ \A i \in DOMAIN s.sent : s.sent[i].k = "tre" => \E h \in Chains : s.proxy[h] # None /\ s.sent[i].admin = s.proxy[h]
         /\ \A i \in DOMAIN s.sent : s.sent[i].k = "exec" => \E h \in Chains : s.sent[i].to = s.proxy[h] /\ s.sent[i].tre = s.tre[h]
(* what is recorded stays *)
A_X01 == [][ \A h \in Chains : /\ (s.proxy[h] # None => s'.proxy[h] = s.proxy[h])
                               /\ (s.tre[h] # None => s'.tre[h] = s.tre[h]) ]_vars
(* records change only by an answer to an outstanding request, which is then no longer outstanding *)
A_X02 == [][ (s'.proxy # s.proxy \/ s'.tre # s.tre) =>
               (act'.o.op = "xreply" /\ act'.o.id \in DOMAIN s.pend /\ act'.o.id \notin DOMAIN s'.pend) ]_vars

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
RECURSIVE InOrder(_)
InOrder(l) == IF l = <<>> THEN <<>> ELSE (IF s.tre[Head(l)] = None THEN <<>> ELSE <<[chain |-> Head(l), tre |-> s.tre[Head(l)]]>>) \o InOrder(Tail(l))
ChainSeq == <<"chn1", "chn2", "chn3">>
RECURSIVE Obs1(_, _)
Obs1(x, k) == CASE k = "remote" -> [by |-> [h \in Chains |-> [proxy |-> x.proxy[h], tre |-> x.tre[h]]], list |-> InOrder(SelectSeq(ChainSeq, LAMBDA h : h \in Chains))]
                [] k = "sent" -> x.sent
                (* through the facade: the fee of every remote action is paid in (one unit for each transfer), and the same treasuries are listed *)
                [] k = "fout" -> [luna |-> Cfgs[x.c].bal.luna.out + x.fee - Len(x.sent), remote |-> Obs1(x, "remote")]
Pick(x, ks) == [k \in ks |-> Obs1(x, k)]
View == s
Key(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EmitState == PrintT(ToJson([S |-> Key(s), c |-> s.c, t |-> s.t, init |-> (act.o.op = "init"), obs |-> Pick(s, ObsKeys)]))
EmitEdge == PrintT(ToJson([E |-> Key(s), F |-> Key(s'), act |-> act'.o, ok |-> act'.ok]))
ASSUME PrintT(ToJson([C |-> Cfgs]))

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
XDeploy(by, h, gp, ch, w) == [op |-> "xdeploy", by |-> by, chain |-> h, gp |-> gp, chan |-> ch, white |-> w]
XReply(by, id, a, form, pre) == [op |-> "xreply", by |-> by, id |-> id, addr |-> a, form |-> form, pre |-> pre]
XExec(by, h, ch, a) == [op |-> "xexec", by |-> by, chain |-> h \o "/" \o ch, rchain |-> h, rchan |-> ch, a |-> a]
RFund(h, ch, to, as) == [a |-> "fund", to |-> to, assets |-> as, remote |-> h \o "/" \o ch, rchain |-> h, rchan |-> ch]
RWhite(h, ch, add, rem) == [a |-> "white", add |-> add, rem |-> rem, remote |-> h \o "/" \o ch, rchain |-> h, rchan |-> ch]
RNftw(h, ch, add, rem) == [a |-> "nftw", add |-> add, rem |-> rem, remote |-> h \o "/" \o ch, rchain |-> h, rchan |-> ch]
RTre(h, ch, msgs) == [a |-> "tre", msgs |-> msgs, remote |-> h \o "/" \o ch, rchain |-> h, rchan |-> ch]
RDeploy(h, gp, ch, w) == [a |-> "deploy", chain |-> h, gp |-> gp, chan |-> ch, white |-> w]
Prop(x, acts) == [op |-> "seq", acts |-> acts, ops |-> <<OPropose("u1", acts), OVote("u1", x.n + 1, 0), OExec("u1", x.n + 1)>>]
=============================================================================
