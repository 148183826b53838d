-------------------------------- MODULE Dao --------------------------------
(***************************************************************************)
(* One enterprise DAO: membership by staking a denom, a cw20 token or NFTs *)
(* or as a multisig; proposals with deposits; a council; reward            *)
(* distribution; treasury and whitelists; attestation; metadata; upgrades. *)
(*                                                                         *)
(* A state is a record s.  Apply(s, op) gives the outcome of one           *)
(* transaction: whether it is accepted ("y"), refused ("n") or either      *)
(* without effect on the state ("any"), and the resulting state.  Every    *)
(* operation of the contracts that a user or contract can call is one op.  *)
(* Time is counted in units; one unit is one block.                        *)
(***************************************************************************)
EXTENDS Rules, TLC, TLCExt, Json

CONSTANTS
  Cfgs,        \* sequence of DAO configurations
  Users,       \* user names
  Assets,      \* fungible assets, "dao" being the DAO's own
  RewAssets,   \* those distributed as rewards
  Depth,       \* longest history explored
  OpSet(_),    \* operations attempted in a state
  ObsKeys      \* which observations are compared with the implementation

Accts == Users \cup {"mem", "gc", "tre", "dis", "ent"}
None == "none"

Cfg(s) == Cfgs[s.c]
Kind(s) == Cfg(s).kind
IsNft(s) == Kind(s) \in {"nft", "ics721"}

Yes(s) == [ok |-> "y", s |-> s]
No(s) == [ok |-> "n", s |-> s]
When(cond, s, s2) == IF cond THEN Yes(s2) ELSE No(s)

(***************************************************************************)
(* Weights                                                                 *)
(***************************************************************************)
Total(s) == SumF(s.stk, Users)
CTotal(s) == SumF(s.cmem, Users)
Restricted(s, u) == s.att # "" /\ u \notin s.sgn

Eff(s, u) == IF s.stk[u] >= s.minw THEN s.stk[u] ELSE 0
EffTotal(s) == SumF([u \in Users |-> Eff(s, u)], Users)

SetStk(s, u, w) == [s EXCEPT !.stk[u] = w]

(***************************************************************************)
(* Balances                                                                *)
(***************************************************************************)
Move(s, a, from, to, n) ==
  IF a \in Assets /\ s.bal[a][from] >= n
  THEN Yes([s EXCEPT !.bal[a] = [@ EXCEPT ![from] = @ - n, ![to] = @ + (IF from = to THEN n ELSE n)]])
  ELSE No(s)

(***************************************************************************)
(* Proposals                                                               *)
(***************************************************************************)
Open(s, p) == p.res = "open" /\ s.t < p.en
(* the weight with which u's recorded vote counts *)
VW(s, p, u) == IF p.k = "g" /\ Open(s, p) THEN s.stk[u] ELSE p.w[u]
Tally(s, p) == [o \in 1..4 |-> SumF([u \in Users |-> IF p.v[u] = o - 1 THEN VW(s, p, u) ELSE 0], Users)]
Avail(s, p) == IF p.res = "open" /\ s.t < p.en THEN (IF p.k = "g" THEN Total(s) ELSE CTotal(s)) ELSE p.tot
VerdictOf(s, p) == Verdict(p.q, p.th, p.ve, Tally(s, p), Avail(s, p))
EarlyAllowed(s, p) == p.k = "c" \/ s.gov.early

CanResolve(s, p) ==
  /\ p.res = "open"
  /\ s.t >= p.ear
  /\ Avail(s, p) > 0
  /\ (s.t >= p.en \/ (EarlyAllowed(s, p) /\ Decisive(VerdictOf(s, p))))

Status(s, p) ==
  IF p.res # "open" THEN "executed"
  ELSE IF s.t >= p.en THEN (IF VerdictOf(s, p) = "passed" THEN "passed" ELSE "rejected")
  ELSE IF EarlyAllowed(s, p) /\ s.t >= p.ear /\ Decisive(VerdictOf(s, p)) THEN "in_progress_can_execute_early"
  ELSE "in_progress"

Freeze(s, p, tot) == [p EXCEPT !.w = (IF p.k = "g" THEN [u \in Users |-> IF p.v[u] < 4 THEN s.stk[u] ELSE 0] ELSE @), !.tot = tot]

(***************************************************************************)
(* Time                                                                    *)
(***************************************************************************)
(* The history of totals is kept by whole seconds: tot0 and ctot0 are the totals at the
   start of the present second. A unit is a minute, or half a second. *)
Second(s, t) == IF Cfg(s).half THEN t \div 2 ELSE t

Tick(s, t2) ==
  LET close(p) == IF p.res = "open" /\ p.en > s.t /\ p.en <= t2
                  THEN Freeze(s, p, IF Second(s, p.en) = Second(s, s.t)
                                    THEN (IF p.k = "g" THEN s.tot0 ELSE s.ctot0)
                                    ELSE IF p.k = "g" THEN Total(s) ELSE CTotal(s)) ELSE p
      n == t2 - s.t
      same == Second(s, t2) = Second(s, s.t)
  IN [s EXCEPT !.props = [i \in DOMAIN @ |-> close(@[i])],
               !.t = t2, !.tot0 = IF same THEN @ ELSE Total(s), !.ctot0 = IF same THEN @ ELSE CTotal(s),
               !.hist = IF Cfg(s).hist THEN @ \o [i \in 1..n |-> Total(s)] ELSE @,
               !.chist = IF Cfg(s).hist THEN @ \o [i \in 1..n |-> CTotal(s)] ELSE @]

(***************************************************************************)
(* Membership operations                                                   *)
(***************************************************************************)
Stake(s, op) ==
  LET u == IF op.for = "self" THEN op.by ELSE op.for
  IN IF /\ Kind(s) \in {"denom", "token"} /\ op.asset = "dao" /\ op.amt > 0
        /\ s.bal["dao"][op.by] >= op.amt /\ ~Restricted(s, u)
     THEN Yes(SetStk(Move(s, "dao", op.by, "mem", op.amt).s, u, s.stk[u] + op.amt))
     ELSE IF Kind(s) = "token" /\ op.asset = "dao" /\ op.amt = 0 THEN [ok |-> "any", s |-> s]
     ELSE No(s)

RECURSIVE AddStakesTo(_, _)
AddStakesTo(s, l) == IF l = <<>> THEN s ELSE AddStakesTo(SetStk(s, Head(l)[1], s.stk[Head(l)[1]] + Head(l)[2]), Tail(l))

AddStakes(s, op) ==
  When(/\ Kind(s) = "token" /\ op.amt > 0 /\ s.bal["dao"][op.by] >= op.amt
       /\ SumSeq([i \in 1..Len(op.list) |-> op.list[i][2]]) = op.amt
       /\ \A i \in 1..Len(op.list) : op.list[i][2] > 0 => ~Restricted(s, op.list[i][1]),
       s, AddStakesTo(Move(s, "dao", op.by, "mem", op.amt).s, op.list))

AddClaims(s, op) ==
  When(/\ Kind(s) = "token" /\ op.amt > 0 /\ s.bal["dao"][op.by] >= op.amt
       /\ SumSeq([i \in 1..Len(op.list) |-> op.list[i][2]]) = op.amt,
       s, [Move(s, "dao", op.by, "mem", op.amt).s EXCEPT !.clm = @ \o
             [i \in 1..Len(op.list) |-> [u |-> op.list[i][1], amt |-> op.list[i][2], ids |-> <<>>, rel |-> [k |-> "time", n |-> op.list[i][3]]]]])

ReleaseAt(s) == [k |-> s.ul.k, n |-> s.t + s.ul.n]

(* a bridged collection is usable once the bridge knows its local contract *)
Known(s) == Kind(s) = "ics721" => s.known
(* a whole staked NFT collection: the DAO's own tokens are named plainly, foreign ones "x:.." *)
StakeNft(s, op) ==
  LET own == op.coll = "nft"
      key == IF own THEN op.id ELSE "x:" \o op.id
  IN When(/\ IsNft(s) /\ Known(s)
          /\ own
          /\ key \in DOMAIN s.nft /\ s.nft[key] = op.by
          /\ s.nst[op.id] = None
          /\ ~Restricted(s, op.for),
          s, [s EXCEPT !.nft[key] = "mem", !.fixed = @ \/ Kind(s) = "ics721", !.nst[op.id] = op.for, !.stk[op.for] = @ + 1])

AddClaimNft(s, op) ==
  When(/\ IsNft(s) /\ Known(s) /\ op.coll = "nft" /\ op.id \in DOMAIN s.nft /\ s.nft[op.id] = op.by,
       s, [s EXCEPT !.nft[op.id] = "mem", !.fixed = @ \/ Kind(s) = "ics721", !.clm = Append(@, [u |-> op.for, amt |-> 0, ids |-> <<op.id>>, rel |-> [k |-> "time", n |-> op.rel]])])

Unstake(s, op) ==
  IF IsNft(s)
  THEN LET ids == op.ids IN
       When(NoDups(ids) /\ \A i \in 1..Len(ids) : ids[i] \in DOMAIN s.nst /\ s.nst[ids[i]] = op.by,
            s, [s EXCEPT !.stk[op.by] = @ - Len(ids),
                         !.nst = [x \in DOMAIN @ |-> IF x \in Range(ids) THEN None ELSE @[x]],
                         !.clm = Append(@, [u |-> op.by, amt |-> 0, ids |-> ids, rel |-> ReleaseAt(s)])])
  ELSE When(Kind(s) \in {"denom", "token"} /\ op.amt <= s.stk[op.by],
            s, [SetStk(s, op.by, s.stk[op.by] - op.amt)
                  EXCEPT !.clm = Append(@, [u |-> op.by, amt |-> op.amt, ids |-> <<>>, rel |-> ReleaseAt(s)])])

Releasable(s, c) == s.t >= c.rel.n
RECURSIVE Filter(_, _, _, _)
(* claims of u in q that are (not) releasable *)
Filter(s, q, u, rel) ==
  IF q = <<>> THEN <<>>
  ELSE LET c == Head(q)
           keep == IF rel THEN c.u = u /\ Releasable(s, c) ELSE ~(c.u = u /\ Releasable(s, c))
       IN (IF keep THEN <<c>> ELSE <<>>) \o Filter(s, Tail(q), u, rel)

Claim(s, op) ==
  LET u == IF op.user = "self" THEN op.by ELSE op.user
      cs == Filter(s, s.clm, u, TRUE)
      amt == SumSeq([i \in 1..Len(cs) |-> cs[i].amt])
      ids == UNION {Range(cs[i].ids) : i \in 1..Len(cs)}
      rest == Filter(s, s.clm, u, FALSE)
  IN IF u # op.by \/ Kind(s) \in {"multisig", "none"} THEN No(s)
     ELSE IF Kind(s) = "ics721" /\ cs = <<>> THEN [ok |-> "any", s |-> s]
     ELSE IF IsNft(s)
     THEN Yes([s EXCEPT !.clm = rest, !.nft = [x \in DOMAIN @ |-> IF x \in ids THEN u ELSE @[x]]])
     ELSE IF amt = 0 THEN [ok |-> "any", s |-> [s EXCEPT !.clm = IF cs = <<>> THEN @ ELSE rest]]
     ELSE Yes([Move(s, "dao", "mem", u, amt).s EXCEPT !.clm = rest])

RECURSIVE SetEach(_, _)
SetEach(m, l) == IF l = <<>> THEN m ELSE SetEach([m EXCEPT ![Head(l)[1]] = Head(l)[2]], Tail(l))

(* edits of one of the member lists *)
NamedOnce(l) == NoDups([i \in 1..Len(l) |-> l[i][1]])
EditMembers(s, op) ==
  IF op.by # "gc" \/ ~NamedOnce(op.edits) THEN No(s)
  ELSE IF op.c = "mem"
       THEN (IF Kind(s) = "multisig" THEN Yes([s EXCEPT !.stk = SetEach(@, op.edits)]) ELSE No(s))
       ELSE Yes([s EXCEPT !.cmem = SetEach(@, op.edits)])

SetMembers(s, op) ==
  LET z == [u \in Users |-> 0] IN
  IF op.by # "gc" \/ ~NamedOnce(op.edits) THEN No(s)
  ELSE IF op.c = "mem"
       THEN (IF Kind(s) = "multisig" THEN Yes([s EXCEPT !.stk = SetEach(z, op.edits)]) ELSE No(s))
       ELSE Yes([s EXCEPT !.cmem = SetEach(z, op.edits)])

(***************************************************************************)
(* Actions of proposals                                                    *)
(***************************************************************************)
ActType(a) ==
  CASE a.a = "meta" -> "update_metadata" [] a.a = "gov" -> "update_gov_config" [] a.a = "council" -> "update_council"
    [] a.a = "white" -> "update_asset_whitelist" [] a.a = "nftw" -> "update_nft_whitelist" [] a.a = "fund" -> "request_funding_from_dao"
    [] a.a = "upg" -> "upgrade_dao" [] a.a = "exec" -> "execute_msgs" [] a.a = "tre" -> "execute_treasury_msgs"
    [] a.a = "ent" -> "execute_enterprise_msgs" [] a.a = "msig" -> "modify_multisig_membership" [] a.a = "dist" -> "distribute_funds"
    [] a.a = "minw" -> "update_minimum_weight_for_rewards" [] a.a = "deploy" -> "deploy_cross_chain_treasury"

CouncilMay == {"update_metadata", "update_asset_whitelist", "update_nft_whitelist", "upgrade_dao", "deploy_cross_chain_treasury"}

Override(r, f) == [k \in DOMAIN r |-> IF k \in DOMAIN f THEN f[k] ELSE r[k]]

GovAfter(g, f) == Override(g, f)
GovValid(s, g) ==
  /\ g.dur > 0 /\ IsShare(g.q) /\ IsShare(g.thr) /\ (g.veto = -1 \/ IsShare(g.veto))
  /\ (Kind(s) = "multisig" => g.mindep = -1)

CouncilValid(c) ==
  c.on => /\ NoDups(c.members) /\ IsShare(c.q) /\ IsShare(c.thr)
          /\ (c.allowed = <<"default">> \/ Range(c.allowed) \subseteq CouncilMay)
CouncilCfg(c) ==
  IF c.on THEN [on |-> TRUE, q |-> c.q, thr |-> c.thr, allowed |-> IF c.allowed = <<"default">> THEN {"upgrade_dao"} ELSE Range(c.allowed)]
  ELSE [on |-> FALSE, q |-> 0, thr |-> 0, allowed |-> {}]

Is1155(a) == a \in {"m1155_a", "m1155_b", "m1155_c"}
Parses(msgs) == \A i \in 1..Len(msgs) : msgs[i].m # "unparse"
ListsOk(a) == NoDups(a.add) /\ NoDups(a.rem) /\ Range(a.add) \cap Range(a.rem) = {}

(* checked when a proposal is created *)
ValidAct(s, a) ==
  CASE a.a = "white" -> (a.remote # "" \/ ListsOk(a))
    [] a.a = "nftw" -> ListsOk(a)
    [] a.a = "upg" -> VerLt(s.ver, a.v)
    [] a.a \in {"exec", "tre", "ent"} -> Parses(a.msgs)
    [] a.a = "msig" -> Kind(s) = "multisig" /\ NoDups([i \in 1..Len(a.edits) |-> a.edits[i][1]])
    [] a.a = "council" -> CouncilValid(a.c)
    [] a.a = "dist" -> \A i \in 1..Len(a.funds) : ~Is1155(a.funds[i][1])
    [] a.a = "fund" -> (a.remote # "" \/ \A i \in 1..Len(a.assets) : ~Is1155(a.assets[i][1]))
    [] a.a = "gov" -> GovValid(s, GovAfter(s.gov, a.f))
    [] OTHER -> TRUE
ValidActs(s, acts) == Len(acts) <= 10 /\ \A i \in 1..Len(acts) : ValidAct(s, acts[i])

(* rewards: integral shares by choice of the distributed amounts *)
Whitelisted(s, a) == a \in s.wl \/ a \in Range(Cfg(s).gwhite)
Credit(s, a, n) ==
  LET g == EffTotal(s)
      r == [s EXCEPT !.rw[a] = [u \in Users |-> @[u] + (n \div g) * Eff(s, u)]]
  IN IF ~Cfg(s).round THEN r
     ELSE [r EXCEPT !.rx[a] = [u \in Users |-> LET d == (n * (840 \div g)) * Eff(s, u) IN
             [@[u] EXCEPT !.life = @ + d, !.cur = @ + d, !.due = @ \/ d > 0]]]

(* where shares are not whole numbers: how often u's reward has been rounded so far *)
Settled(x) == IF x.due THEN [x EXCEPT !.nlife = @ + 1, !.ncur = @ + 1, !.due = FALSE] ELSE x
(* a fraction of a unit may remain after a claim *)
Paid(x) == [Settled(x) EXCEPT !.cur = Min2(@, 839), !.ncur = IF x.cur = 0 THEN 0 ELSE 1]
Settle(s0, op, s1) ==
  IF ~Cfg(s0).round THEN s1
  ELSE [s1 EXCEPT !.rx = [a \in RewAssets |-> [u \in Users |->
          IF s0.stk[u] # s1.stk[u] \/ op.op \in {"minw", "unstake", "stake", "editm", "setm", "exec"} THEN Settled(@[a][u]) ELSE @[a][u]]]]
Distribute(s, from, a, n) ==
  IF ~Whitelisted(s, a) \/ EffTotal(s) = 0 \/ s.bal[a][from] < n \/ n = 0 THEN No(s)
  ELSE Yes(Credit(Move(s, a, from, "dis", n).s, a, n))

RECURSIVE DistAll(_, _, _), MoveAll(_, _, _, _), RunMsgs(_, _, _)
DistAll(s, from, l) ==
  IF l = <<>> THEN Yes(s)
  ELSE LET r == Distribute(s, from, Head(l)[1], Head(l)[2])
       IN IF r.ok = "y" THEN DistAll(r.s, from, Tail(l)) ELSE No(s)
MoveAll(s, from, to, l) ==
  IF l = <<>> THEN Yes(s)
  ELSE LET r == Move(s, Head(l)[1], from, to, Head(l)[2])
       IN IF r.ok = "y" THEN MoveAll(r.s, from, to, Tail(l)) ELSE No(s)

SetAtt(s, text) == [s EXCEPT !.att = text, !.attn = @ + 1, !.sgn = {}]
RemAtt(s) == [s EXCEPT !.att = "", !.sgn = {}]

(* one chain message sent by a contract of the DAO *)
RunMsg(s, who, m) ==
  CASE m.m = "send" -> Move(s, m.asset, who, m.to, m.amt)
    [] m.m = "setatt" -> When(who = "gc" /\ s.ecfg.ver = "ver", s, SetAtt(s, m.text))
    [] m.m = "rmatt" -> When(who = "gc", s, RemAtt(s))
    [] OTHER -> No(s)
RunMsgs(s, who, l) ==
  IF l = <<>> THEN Yes(s)
  ELSE LET r == RunMsg(s, who, Head(l)) IN IF r.ok = "y" THEN RunMsgs(r.s, who, Tail(l)) ELSE No(s)

(* multi-tokens are not supported on the whitelist *)
Wlable(a) == \A i \in 1..Len(a.add) : ~Is1155(a.add[i])
WlAfter(set, a) == (set \cup Range(a.add)) \ Range(a.rem)

RECURSIVE VersBetween(_, _, _)
(* registered versions above a up to b *)
VersBetween(l, a, b) ==
  IF l = <<>> THEN <<>>
  ELSE (IF VerLt(a, Head(l)[1]) /\ VerLe(Head(l)[1], b) THEN <<Head(l)>> ELSE <<>>) \o VersBetween(Tail(l), a, b)
RECURSIVE SortVers(_)
SortVers(q) == IF q = <<>> THEN <<>> ELSE
  LET m == CHOOSE m \in Range(q) : \A x \in Range(q) : VerLe(m[1], x[1]) IN <<m>> \o SortVers(SelectSeq(q, LAMBDA x : x # m))
MsgTag(msgs, v) ==
  IF \E i \in 1..Len(msgs) : msgs[i][1] = v THEN LET i == CHOOSE i \in 1..Len(msgs) : msgs[i][1] = v IN msgs[i][2] ELSE "default"
(* the migrated DAO takes the other components' code from release 1.2.1 of the registry *)
Registered(s, v) == \E i \in 1..Len(Cfg(s).versions) : Cfg(s).versions[i][1] = v
SetOf(s, v) == LET i == CHOOSE i \in 1..Len(Cfg(s).versions) : Cfg(s).versions[i][1] = v IN Cfg(s).versions[i][2]
Upgrade(s, v, msgs) ==
  LET vs == SortVers(VersBetween(Cfg(s).versions, s.ver, v))
      tags == [i \in 1..Len(vs) |-> <<vs[i][2], MsgTag(msgs, vs[i][1])>>]
  IN IF \/ ~VerLt(s.ver, v)
        \/ ~NoDups([i \in 1..Len(msgs) |-> msgs[i][1]])
        \/ \E i \in 1..Len(tags) : tags[i][2] \in {"fail", "nojson"}
        \/ (vs # <<>> /\ ~Registered(s, <<1, 2, 1>>))
     THEN No(s)
     ELSE Yes([s EXCEPT !.ver = v, !.log = @ \o tags, !.set = IF vs = <<>> THEN @ ELSE vs[Len(vs)][2],
                        !.cset = IF vs = <<>> THEN @ ELSE SetOf(s, <<1, 2, 1>>)])

(* first pass over the actions: what the governance controller itself checks and stores *)
P1(s, a) ==
  CASE a.a = "gov" -> LET g == GovAfter(s.gov, a.f) IN
         When(/\ GovValid(s, g)
              /\ ("ul" \in DOMAIN a.f => (a.f.ul.k = "time" => a.f.ul.n >= g.dur)),
              s, [s EXCEPT !.gov = g])
    [] a.a = "council" -> When(CouncilValid(a.c), s, [s EXCEPT !.cou = CouncilCfg(a.c)])
    [] a.a = "upg" -> When(VerLt(s.ver, a.v), s, s)
    [] a.a = "msig" -> When(ValidAct(s, a), s, s)
    [] OTHER -> Yes(s)

(* second pass: the messages sent to the other components *)
P2(s, a) ==
  CASE a.a = "meta" -> Yes([s EXCEPT !.meta = Override(@, a.f)])
    [] a.a = "gov" -> Yes(IF "ul" \in DOMAIN a.f /\ Kind(s) # "multisig" THEN [s EXCEPT !.ul = a.f.ul] ELSE s)
    [] a.a = "council" -> Yes([s EXCEPT !.cmem = [u \in Users |-> IF a.c.on /\ u \in Range(a.c.members) THEN 1 ELSE 0]])
    [] a.a = "white" -> When(a.remote = "" /\ s.admin = "gc" /\ Wlable(a), s, [s EXCEPT !.wl = WlAfter(@, a)])
    [] a.a = "nftw" -> When(a.remote = "" /\ s.admin = "gc", s, [s EXCEPT !.nwl = WlAfter(@, a)])
    [] a.a = "fund" -> IF a.remote = "" /\ s.admin = "gc" THEN MoveAll(s, "tre", a.to, a.assets) ELSE No(s)
    [] a.a = "upg" -> Upgrade(s, a.v, a.msgs)
    [] a.a = "exec" -> RunMsgs(s, "gc", a.msgs)
    [] a.a = "tre" -> IF a.remote = "" /\ s.admin = "gc" THEN RunMsgs(s, "tre", a.msgs) ELSE No(s)
    [] a.a = "ent" -> RunMsgs(s, "ent", a.msgs)
    [] a.a = "msig" -> Yes([s EXCEPT !.stk = SetEach(@, a.edits)])
    [] a.a = "dist" -> IF s.admin = "gc" THEN DistAll(s, "tre", a.funds) ELSE No(s)
    [] a.a = "minw" -> Yes([s EXCEPT !.minw = a.w])
    [] OTHER -> No(s)

RECURSIVE Pass1(_, _), Pass2(_, _)
Pass1(s, l) == IF l = <<>> THEN Yes(s) ELSE LET r == P1(s, Head(l)) IN IF r.ok = "y" THEN Pass1(r.s, Tail(l)) ELSE No(s)
Pass2(s, l) == IF l = <<>> THEN Yes(s) ELSE LET r == P2(s, Head(l)) IN IF r.ok = "y" THEN Pass2(r.s, Tail(l)) ELSE No(s)

(* all actions or none *)
RunActions(s, acts) ==
  LET a == Pass1(s, acts) IN
  IF a.ok # "y" THEN s ELSE LET b == Pass2(a.s, acts) IN IF b.ok = "y" THEN b.s ELSE s

(***************************************************************************)
(* Proposal operations                                                     *)
(***************************************************************************)
NewProp(s, k, op, dep, dtok, q, th) ==
  [k |-> k, by |-> op.by, acts |-> op.acts, dep |-> dep, dtok |-> dtok,
   own |-> IF op.own = None THEN op.by ELSE op.own,
   st |-> s.t, en |-> s.t + s.gov.dur, q |-> q, th |-> th, ve |-> s.gov.veto,
   v |-> [u \in Users |-> 4], w |-> [u \in Users |-> 0], ear |-> -9, res |-> "open", tot |-> 0]

(* who may propose: with a minimum deposit, whoever posts it; without, members *)
Entry(s, by, dep) == IF s.gov.mindep = -1 THEN s.stk[by] > 0 ELSE dep >= s.gov.mindep

Propose(s, op) ==
  LET deposits == (Kind(s) = "denom" /\ op.via = "native" /\ op.dasset = "dao") \/ (Kind(s) = "token" /\ op.via = "cw20" /\ op.dasset = "dao")
      dep == IF op.via = "nft" THEN Len(op.dtok) ELSE IF deposits THEN op.dep ELSE 0
      (* further coins sent along are no deposit and stay with the controller *)
      paid == CASE "extra" \in DOMAIN op -> MoveAll(s, op.by, "gc", <<<<op.dasset, op.dep>>>> \o op.extra)
                [] op.via \in {"native", "cw20"} /\ op.dep > 0 -> Move(s, op.dasset, op.by, "gc", op.dep)
                [] op.via = "nft" -> Yes([s EXCEPT !.nft = [x \in DOMAIN @ |-> IF x \in Range(op.dtok) THEN "gc" ELSE @[x]]])
                [] OTHER -> Yes(s)
      way == CASE op.via = "cw20" -> Kind(s) = "token" /\ op.dasset = "dao"
               [] op.via = "nft" -> /\ IsNft(s) /\ Known(s) /\ NoDups(op.dtok)
                                    /\ \A i \in 1..Len(op.dtok) : op.dtok[i] \in DOMAIN s.nft /\ op.appr /\ (s.nft[op.dtok[i]] = op.by \/ ("lend" \in DOMAIN op /\ s.nft[op.dtok[i]] \in Users))
               [] OTHER -> TRUE
  IN IF ~way \/ Restricted(s, op.by) \/ ~Entry(s, op.by, dep) \/ ~ValidActs(s, op.acts) \/ paid.ok # "y" THEN No(s)
     ELSE Yes([paid.s EXCEPT !.props = Append(@, NewProp(s, "g", op, IF op.via = "nft" THEN 0 ELSE dep, IF op.via = "nft" THEN op.dtok ELSE <<>>, s.gov.q, s.gov.thr))])

CPropose(s, op) ==
  When(/\ ~Restricted(s, op.by) /\ s.cou.on /\ ValidActs(s, op.acts) /\ s.cmem[op.by] > 0
       /\ \A i \in 1..Len(op.acts) : ActType(op.acts[i]) \in s.cou.allowed,
       s, [s EXCEPT !.props = Append(@, NewProp(s, "c", op, 0, <<>>, s.cou.q, s.cou.thr))])

(* a tenth of the voting duration in whole seconds; a unit is a minute, or half a second *)
GraceOf(s) == IF Cfg(s).half THEN 2 * (s.gov.dur \div 20) ELSE Grace(s.gov.dur)

Vote(s, op) ==
  IF Restricted(s, op.by) \/ s.stk[op.by] = 0 \/ op.p \notin 1..Len(s.props) THEN No(s)
  ELSE LET p == s.props[op.p] IN
    IF p.k # "g" \/ ~Open(s, p) THEN No(s)
    ELSE LET p1 == [p EXCEPT !.v[op.by] = op.o]
             before == Outlook(VerdictOf(s, p), Tally(s, p))
             after == Outlook(VerdictOf(s, p1), Tally(s, p1))
             ear == IF s.gov.early /\ Kind(s) # "multisig" /\ before # after THEN Min2(s.t + GraceOf(s), p.en) ELSE p.ear
         IN Yes([s EXCEPT !.props[op.p] = [p1 EXCEPT !.ear = ear]])

CVote(s, op) ==
  IF Restricted(s, op.by) \/ ~s.cou.on \/ s.cmem[op.by] = 0 \/ op.p \notin 1..Len(s.props) THEN No(s)
  ELSE LET p == s.props[op.p] IN
    When(p.k = "c" /\ Open(s, p), s, [s EXCEPT !.props[op.p] = [@ EXCEPT !.v[op.by] = op.o, !.w[op.by] = s.cmem[op.by]]])

DepositTo(s, p, to) ==
  IF p.dtok # <<>>
  THEN When(\A i \in 1..Len(p.dtok) : s.nft[p.dtok[i]] = "gc", s,
            [s EXCEPT !.nft = [x \in DOMAIN @ |-> IF x \in Range(p.dtok) THEN to ELSE @[x]]])
  ELSE IF p.dep > 0 THEN Move(s, "dao", "gc", to, p.dep) ELSE Yes(s)

Execute(s, op) ==
  IF Restricted(s, op.by) \/ op.p \notin 1..Len(s.props) THEN No(s)
  ELSE LET p == s.props[op.p] IN
    IF ~CanResolve(s, p) THEN No(s)
    ELSE LET v == VerdictOf(s, p)
             p1 == [Freeze(s, p, IF s.t >= p.en THEN p.tot ELSE IF p.k = "g" THEN s.tot0 ELSE s.ctot0)
                      EXCEPT !.w = (IF s.t >= p.en THEN p.w ELSE @), !.res = v]
             s1 == [s EXCEPT !.props[op.p] = p1]
             s2 == IF v = "passed" THEN RunActions(s1, p.acts) ELSE s1
             to == IF v \in {"noquorum", "veto"} THEN "tre" ELSE p.own
             r == DepositTo(s2, p, to)
         IN IF r.ok = "y" THEN Yes(r.s) ELSE No(s)

(***************************************************************************)
(* Rewards                                                                 *)
(***************************************************************************)
ClaimRew(s, op) ==
  LET as == Range(op.assets) \cap RewAssets IN
  When(/\ op.by = op.user /\ ~Restricted(s, op.user)
       /\ \A a \in as : s.bal[a]["dis"] >= s.rw[a][op.user],
       s, [s EXCEPT !.bal = [a \in Assets |-> IF a \in as THEN [@[a] EXCEPT !["dis"] = @ - s.rw[a][op.user], ![op.user] = @ + s.rw[a][op.user]] ELSE @[a]],
                    !.rw = [a \in RewAssets |-> IF a \in as THEN [@[a] EXCEPT ![op.user] = 0] ELSE @[a]],
                    !.rx = IF Cfg(s).round THEN [a \in RewAssets |-> IF a \in as THEN [@[a] EXCEPT ![op.user] = Paid(@)] ELSE @[a]] ELSE @])

(***************************************************************************)
(* Old DAOs: stakes and claims still recorded in the treasury are handed   *)
(* over to the membership contract in steps.  s.leg.st lists <<user, n>>   *)
(* (token) or <<id, user>> (NFT) in storage order, s.leg.clm the pending   *)
(* claims, grouped by user.                                                *)
(***************************************************************************)
MigStage(s, done, lim) == IF done < lim THEN "migration_completed" ELSE "migration_in_progress"
Unmoved(s) == s.leg.st # <<>> \/ s.leg.clm # <<>>
RECURSIVE AddEach(_, _)
AddEach(m, l) == IF l = <<>> THEN m ELSE AddEach([m EXCEPT ![Head(l)[1]] = @ + Head(l)[2]], Tail(l))
Ones(st) == [i \in 1..Len(st) |-> <<st[i][2], 1>>]
Nobody == [u \in Users |-> 0]
(* weights still recorded in the treasury *)
LegWs(s) == AddEach(Nobody, IF Kind(s) = "multisig" THEN s.leg.ms ELSE IF IsNft(s) THEN Ones(s.leg.st) ELSE s.leg.st)

MigToken(s, lim) ==
  LET n1 == Min2(lim, Len(s.leg.st))
      n2 == Min2(lim - n1, Len(s.leg.clm))
      st == SubSeq(s.leg.st, 1, n1)
      cl == SubSeq(s.leg.clm, 1, n2)
      a1 == SumSeq([i \in 1..n1 |-> st[i][2]])
      a2 == SumSeq([i \in 1..n2 |-> cl[i].amt])
      s1 == [s EXCEPT !.leg = [@ EXCEPT !.stage = MigStage(s, n1 + n2, lim), !.st = SubSeq(@, n1 + 1, Len(@)), !.clm = SubSeq(@, n2 + 1, Len(@)),
                                        !.mig = AddEach(@, st)]]
      r == IF a1 = 0 THEN Yes(s1) ELSE AddStakes(s1, [by |-> "tre", amt |-> a1, list |-> st])
  IN IF r.ok # "y" THEN No(s) ELSE IF a2 = 0 THEN r
     ELSE When(r.s.bal["dao"]["tre"] >= a2, s, [Move(r.s, "dao", "tre", "mem", a2).s EXCEPT !.clm = @ \o cl])

(* all claims of the first `lim` users with claims, until at least lim tokens are included *)
Users1(q) == {q[i].u : i \in 1..Len(q)}
UserOf(q, i) == Cardinality(Users1(SubSeq(q, 1, i)))
LegToks(q) == SumSeq([i \in 1..Len(q) |-> Len(q[i].ids)])
RECURSIVE NftClaims(_, _, _)
NftClaims(q, lim, got) ==
  IF got >= lim \/ q = <<>> THEN 0
  ELSE LET k == Cardinality({i \in 1..Len(q) : UserOf(q, i) <= lim})
       IN k + NftClaims(SubSeq(q, k + 1, Len(q)), lim, got + LegToks(SubSeq(q, 1, k)))
RECURSIVE EachTok(_, _)
EachTok(q, j) == IF q = <<>> THEN <<>> ELSE
  IF j > Len(Head(q).ids) THEN EachTok(Tail(q), 1) ELSE <<[u |-> Head(q).u, amt |-> 0, ids |-> <<Head(q).ids[j]>>, rel |-> Head(q).rel]>> \o EachTok(q, j + 1)
MigNft(s, lim) ==
  LET n1 == Min2(lim, Len(s.leg.st))
      st == SubSeq(s.leg.st, 1, n1)
      n2 == NftClaims(s.leg.clm, lim - n1, 0)
      cl == EachTok(SubSeq(s.leg.clm, 1, n2), 1)
      ids == {st[i][1] : i \in 1..n1}
      cids == {cl[i].ids[1] : i \in 1..Len(cl)}
      of(x) == st[CHOOSE i \in 1..n1 : st[i][1] = x][2]
  IN When(/\ \A x \in ids \cup cids : s.nft[x] = "tre"
          /\ \A x \in ids : ~Restricted(s, of(x)),
          s, [s EXCEPT !.leg = [@ EXCEPT !.stage = MigStage(s, n1 + Len(cl), lim), !.st = SubSeq(@, n1 + 1, Len(@)), !.clm = SubSeq(@, n2 + 1, Len(@)),
                                         !.mig = AddEach(@, Ones(st))],
                       !.nft = [x \in DOMAIN @ |-> IF x \in ids \cup cids THEN "mem" ELSE @[x]],
                       !.nst = [x \in DOMAIN @ |-> IF x \in ids THEN of(x) ELSE @[x]],
                       !.stk = AddEach(@, Ones(st)),
                       !.clm = @ \o cl])

Migrate(s, op) ==
  LET lim == IF op.n < 0 THEN (IF IsNft(s) THEN 20 ELSE 100) ELSE op.n IN
  IF ~s.leg.on THEN No(s)
  ELSE IF s.leg.stage \in {"none", "migration_not_started"} THEN No(s)
  ELSE IF s.leg.stage = "migration_completed" /\ ~Unmoved(s) THEN No(s)
  ELSE CASE Kind(s) = "token" -> MigToken(s, lim)
         [] Kind(s) = "nft" -> MigNft(s, lim)
         [] Kind(s) = "multisig" -> Yes([s EXCEPT !.leg.stage = MigStage(s, 0, lim)])
         [] OTHER -> No(s)

(***************************************************************************)
(* All operations                                                          *)
(***************************************************************************)
(* listeners: accounts that asked, through the DAO, to be told of weight changes of the
   membership ("mem") or council ("cou") contract; told[l] holds, by contract and user, the
   last change reported to l as <<before, after>> *)
Weights(s, c) == IF c = "mem" THEN s.stk ELSE s.cmem
Rolls == {"mem", "cou"}
Changed(s0, s1, c) == {u \in Users : Weights(s0, c)[u] # Weights(s1, c)[u]}
Hears(l) == l \notin Users                \* an account that is no contract cannot be told
Hook(s, op) == When(op.by = "gc", s, [s EXCEPT !.lst[op.c] = IF op.what = "add" THEN @ \cup {op.who} ELSE @ \ {op.who}])
Report(s0, s1, l) ==
  LET ks == {<<c, u>> \in Rolls \X Users : l \in s0.lst[c] /\ u \in Changed(s0, s1, c)}
      key(k) == k[1] \o "." \o k[2]
      new == [x \in {key(k) : k \in ks} |-> LET k == CHOOSE k \in ks : key(k) = x IN <<Weights(s0, k[1])[k[2]], Weights(s1, k[1])[k[2]]>>]
  IN new @@ s1.told[l]
(* the reports of one transaction; a change that a listener cannot be told of does not happen *)
Tell(s0, op, r) ==
  IF r.ok = "n" \/ (s0.lst["mem"] = {} /\ s0.lst["cou"] = {}) \/ op.op = "seq" THEN r
  ELSE IF \E c \in Rolls : Changed(s0, r.s, c) # {} /\ \E l \in s0.lst[c] : ~Hears(l) THEN No(s0)
  ELSE IF op.op \in {"editm", "setm"} /\ r.s = s0 THEN [r EXCEPT !.ok = "any"]
  ELSE [r EXCEPT !.s.told = [l \in DOMAIN @ |-> Report(s0, r.s, l)]]

RECURSIVE Apply(_, _), ApplySeq(_, _)
ApplySeq(s, ops) ==
  IF ops = <<>> THEN Yes(s)
  ELSE LET r == Apply(s, Head(ops)) IN IF r.ok = "n" THEN No(s) ELSE ApplySeq(r.s, Tail(ops))

Apply(s, op) ==
  CASE op.op = "seq" -> (LET r == ApplySeq(s, op.ops) IN IF r.ok = "y" THEN r ELSE No(s))
    [] op.op = "tick" -> Yes(Tick(s, op.to))
    [] op.op = "stake" -> Stake(s, op)
    [] op.op \in {"stakemulti", "fakenft", "fake20"} -> No(s)
    [] op.op = "addstakes" -> AddStakes(s, op)
    [] op.op = "addclaims" -> AddClaims(s, op)
    [] op.op = "stakenft" -> StakeNft(s, op)
    [] op.op = "learn" -> When(op.class = "cls1" /\ op.coll = "nft", s, [s EXCEPT !.known = TRUE])
    [] op.op = "stakenfts" -> (LET r == ApplySeq(s, [i \in 1..Len(op.ids) |-> [op |-> "stakenft", by |-> op.by, id |-> op.ids[i], for |-> op.for, coll |-> "nft"]])
                               IN IF r.ok = "y" THEN r ELSE No(s))
    [] op.op = "addclaimnft" -> AddClaimNft(s, op)
    [] op.op = "unstake" -> Unstake(s, op)
    [] op.op = "claim" -> Claim(s, op)
    [] op.op = "unlock" -> When(op.by = "gc" /\ Kind(s) # "multisig", s, [s EXCEPT !.ul = op.ul])
    [] op.op = "editm" -> EditMembers(s, op)
    [] op.op = "setm" -> SetMembers(s, op)
    [] op.op = "propose" -> Propose(s, op)
    [] op.op = "cpropose" -> CPropose(s, op)
    [] op.op = "vote" -> Vote(s, op)
    [] op.op = "cvote" -> CVote(s, op)
    [] op.op = "exec" -> Execute(s, op)
    [] op.op = "dist" -> Distribute(s, op.by, op.asset, op.amt)
    [] op.op = "dist2" -> DistAll(s, op.by, op.funds)
    [] op.op = "claimrew" -> ClaimRew(s, op)
    [] op.op = "disw" -> No(s)
    [] op.op = "minw" -> When(op.by = "gc", s, [s EXCEPT !.minw = op.w])
    [] op.op = "sign" -> (IF op.c = "att" THEN When(s.att # "", s, [s EXCEPT !.sgn = @ \cup {op.by}])
                          ELSE Yes(IF s.attn = 1 /\ s.att # "" THEN [s EXCEPT !.sgn = @ \cup {op.by}] ELSE s))
    [] op.op = "setatt" -> When(op.by = "gc" /\ s.ecfg.ver = "ver", s, SetAtt(s, op.text))
    [] op.op = "rmatt" -> When(op.by = "gc", s, RemAtt(s))
    [] op.op = "meta" -> When(op.by = "gc", s, [s EXCEPT !.meta = Override(@, op.f)])
    [] op.op = "entcfg" -> When(op.by = "gc", s, [s EXCEPT !.ecfg = Override(@, op.f)])
    [] op.op = "upg" -> IF op.by = "gc" THEN Upgrade(s, op.v, op.msgs) ELSE No(s)
    [] op.op = "entmsgs" -> IF op.by = "gc" THEN RunMsgs(s, "ent", op.msgs) ELSE No(s)
    [] op.op = "spend" -> IF op.by = s.admin THEN MoveAll(s, "tre", op.to, op.assets) ELSE No(s)
    [] op.op = "tredist" -> IF op.by = s.admin THEN DistAll(s, "tre", op.funds) ELSE No(s)
    [] op.op = "tremsgs" -> IF op.by = s.admin /\ Parses(op.msgs) THEN RunMsgs(s, "tre", op.msgs) ELSE No(s)
    [] op.op = "white" -> When(op.by = s.admin /\ Wlable(op), s, [s EXCEPT !.wl = WlAfter(@, op)])
    [] op.op = "nftw" -> When(op.by = s.admin, s, [s EXCEPT !.nwl = WlAfter(@, op)])
    [] op.op = "treadmin" -> When(op.by = s.admin, s, [s EXCEPT !.admin = op.to])
    [] op.op = "mig" -> Migrate(s, op)
    [] op.op = "hook" -> Hook(s, op)
    [] op.op = "transfer" -> Move(s, op.asset, op.by, op.to, op.amt)

(***************************************************************************)
(* Initial states                                                          *)
(***************************************************************************)
Meta0 == [name |-> "dao0", desc |-> "desc0", logo |-> "logo0", gh |-> "gh0", dc |-> "dc0", tw |-> "tw0", tg |-> "tg0"]

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
NoFn == [x \in {} |-> 0]

Fresh(c) ==
  LET g == Cfgs[c]
      mem == SetEach([u \in Users |-> 0], g.members)
      ids == {x \in DOMAIN g.nft : TRUE}
      last == g.versions[Len(g.versions)]
      tot == SumF(mem, Users)
      ct == IF g.council.on THEN Len(g.council.members) ELSE 0
  IN [c |-> c, t |-> -1,
      bal |-> [a \in Assets |-> [x \in Accts |-> Get(Get(g.bal, a, NoFn), x, 0)]],
      nft |-> [x \in ids |-> g.nft[x]], nst |-> [x \in ids |-> None],
      stk |-> mem, clm |-> <<>>, ul |-> g.ul, known |-> FALSE, fixed |-> FALSE,
      tot0 |-> tot, ctot0 |-> ct, hist |-> <<>>, chist |-> <<>>,
      props |-> <<>>, gov |-> g.gov, cou |-> CouncilCfg(g.council),
      cmem |-> [u \in Users |-> IF g.council.on /\ u \in Range(g.council.members) THEN 1 ELSE 0],
      meta |-> Meta0, wl |-> Range(g.white), nwl |-> Range(g.nftw), admin |-> "gc", ecfg |-> [ver |-> "ver", fac |-> "fac"],
      minw |-> IF g.minw = -1 THEN 0 ELSE g.minw, ver |-> IF g.start > 0 THEN g.versions[g.start][1] ELSE last[1], set |-> IF g.start > 0 THEN g.versions[g.start][2] ELSE last[2],
      cset |-> IF g.start > 0 THEN g.versions[g.start][2] ELSE last[2], orig |-> IF g.start > 0 THEN g.versions[g.start][2] ELSE last[2], log |-> <<>>,
      leg |-> IF g.leg.on THEN [on |-> TRUE, stage |-> g.leg.stage, st |-> g.leg.st, clm |-> g.leg.clm, ms |-> g.leg.ms, mig |-> [u \in Users |-> 0]] ELSE [on |-> FALSE],
      lst |-> [mem |-> IF "alone" \in DOMAIN g THEN Range(g.alone.hooks) ELSE {}, cou |-> {}],
      told |-> IF "tell" \in DOMAIN g THEN [l \in Range(g.tell) |-> [x \in {} |-> <<0, 0>>]] ELSE 0,
      att |-> g.att, attn |-> IF g.att = "" THEN 0 ELSE 1, sgn |-> {},
      rw |-> [a \in RewAssets |-> [u \in Users |-> 0]],
      rx |-> IF g.round THEN [a \in RewAssets |-> [u \in Users |-> [life |-> 0, cur |-> 0, nlife |-> 0, ncur |-> 0, due |-> FALSE]]] ELSE 0]

RECURSIVE Setup(_, _)
Setup(s, ops) == IF ops = <<>> THEN s ELSE LET r == Apply(s, Head(ops)) IN
  IF r.ok = "n" THEN Assert(FALSE, <<"setup refused", Head(ops)>>) ELSE Setup(r.s, Tail(ops))

InitState(c) == Tick(Setup(Fresh(c), Cfgs[c].setup), 0)

VARIABLES s, act
vars == <<s, act>>

Init == /\ \E c \in 1..Len(Cfgs) : s = InitState(c)
        /\ act = [o |-> [op |-> "init"], ok |-> "y"]

Next == /\ TLCGet("level") <= Depth
        /\ \E o \in OpSet(s) : LET r == Tell(s, o, Apply(s, o)) IN s' = (IF r.ok = "n" THEN s ELSE Settle(s, o, r.s)) /\ act' = [o |-> o, ok |-> r.ok]

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
PropObs(x, p) ==
  [k |-> p.k, by |-> p.by, st |-> Status(x, p), res |-> Tally(x, p), tot |-> Avail(x, p),
   v |-> [u \in {u \in Users : p.v[u] < 4} |-> <<p.v[u], VW(x, p, u)>>], from |-> p.st, end |-> p.en]
ObsProps(x) == [i \in 1..Len(x.props) |-> PropObs(x, x.props[i])]
ObsPacts(x) == [i \in 1..Len(x.props) |-> x.props[i].acts]
ByRes(x, R) == {i \in 1..Len(x.props) : x.props[i].res \in R}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : m <= n IN <<m>> \o Ascending(S \ {m})
ObsFilter(x) == [in_progress |-> Ascending(ByRes(x, {"open"})), passed |-> Ascending(ByRes(x, {"passed"})),
                 rejected |-> Ascending(ByRes(x, {"no", "veto", "draw", "noquorum", "nothreshold"}))]
Positive(f) == [u \in {u \in Users : f[u] > 0} |-> f[u]]
ClaimObs(x, c) == IF IsNft(x) THEN [ids |-> c.ids, rel |-> c.rel] ELSE [amt |-> c.amt, rel |-> c.rel]
RECURSIVE ClaimsOf(_, _, _, _)
ClaimsOf(x, q, u, rel) ==
  IF q = <<>> THEN <<>>
  ELSE (IF Head(q).u = u /\ (Head(q).amt > 0 \/ IsNft(x)) /\ (rel => Releasable(x, Head(q))) THEN <<ClaimObs(x, Head(q))>> ELSE <<>>) \o ClaimsOf(x, Tail(q), u, rel)
ObsClaims(x) == [u \in Users |-> ClaimsOf(x, x.clm, u, FALSE)]
ObsRClaims(x) == [u \in Users |-> ClaimsOf(x, x.clm, u, TRUE)]
ObsNstake(x) == [all |-> {i \in DOMAIN x.nst : x.nst[i] # None},
                 per |-> [u \in Users |-> {i \in DOMAIN x.nst : x.nst[i] = u}]]
ObsCouncil(x) == x.cou
(* shares that are not whole are rounded down, by at most one unit each time they are settled *)
Between(ideal, times, due) == [lo |-> Max2(0, (ideal + 839) \div 840 - times - (IF due THEN 1 ELSE 0)), hi |-> ideal \div 840]
ObsRewI(x) == [a \in RewAssets |-> [u \in Users |-> LET r == x.rx[a][u] IN Between(r.cur, r.ncur, r.due)]]
ObsEarned(x) == [a \in RewAssets |-> [u \in {u \in Users : Get(Cfg(x).bal[a], u, 0) = 0} |-> LET r == x.rx[a][u] IN Between(r.life, r.nlife, r.due)]]
ObsAtt(x) == [cur |-> IF x.att = "" THEN None ELSE x.att, restr |-> [u \in Users |-> Restricted(x, u)],
              signed |-> [u \in Users |-> u \in x.sgn]]
DaoType(x) == CASE Kind(x) = "denom" -> "denom" [] Kind(x) = "token" -> "token" [] IsNft(x) -> "nft" [] OTHER -> "multisig"
ObsInfo(x) == [type |-> DaoType(x), created |-> -1, ver |-> x.ver]
ObsComps(x) == [fac |-> x.ecfg.fac, ver |-> x.ecfg.ver, gov |-> "gov", gc |-> "gc", out |-> "out", tre |-> "tre", dis |-> "dis", mem |-> "mem", cou |-> "cou"]

(* What the facade shows: the same as the DAO's own contracts, whichever address it is looked up by *)
MigOpen(x) == x.leg.on /\ x.leg.stage = "migration_in_progress"
FaceGov(x) == [x.gov EXCEPT !.veto = IF x.gov.veto < 0 THEN x.gov.thr ELSE x.gov.veto]
FaceMore(x) == [tre |-> "tre", ent |-> "ent", fac |-> x.ecfg.fac, dis |-> "dis", mig |-> MigOpen(x), unm |-> (x.leg.on /\ Unmoved(x)), stage |-> IF MigOpen(x) THEN "migration_in_progress" ELSE "migration_completed",
                asset |-> CASE Kind(x) = "denom" -> "udao" [] Kind(x) = "token" -> "daotok" [] (Kind(x) = "ics721" /\ ~x.fixed) -> "cls1" [] IsNft(x) -> "nft" [] OTHER -> "ent",
                code |-> x.ver[1] * 10000 + x.ver[2] * 100 + x.ver[3], none |-> TRUE, lists |-> (Kind(x) = "multisig"),
                pw |-> [u \in Users |-> IF Total(x) = 0 THEN 0 ELSE (x.stk[u] * 1000000) \div Total(x)]]
FaceObs(x) ==
  LET all == [props |-> ObsProps(x), pacts |-> ObsPacts(x), pfilter |-> ObsFilter(x), gov |-> FaceGov(x), council |-> x.cou, cmembers |-> Positive(x.cmem),
              meta |-> x.meta, info |-> ObsInfo(x), comps |-> ObsComps(x), att |-> ObsAtt(x), wl |-> x.wl, nwl |-> x.nwl, claims |-> ObsClaims(x), rclaims |-> ObsRClaims(x),
              w |-> IF Kind(x) = "multisig" THEN [u \in Users |-> 0] ELSE x.stk, total |-> IF Kind(x) = "multisig" THEN 0 ELSE Total(x), more |-> FaceMore(x)]
  IN CASE IsNft(x) -> all @@ [nstake |-> ObsNstake(x), ul |-> x.ul]
       [] Kind(x) = "multisig" -> all @@ [members |-> Positive(x.stk)]
       [] OTHER -> all @@ [ul |-> x.ul]

(* totals of moments before the contract existed, as handed over to it at its creation *)
PastAt(q, t) == LET b == {i \in 1..Len(q) : q[i][1] < t} IN IF b = {} THEN 0 ELSE q[CHOOSE i \in b : \A j \in b : j <= i][2]
ObsPast(x) == [h |-> [i \in 1..6 |-> PastAt(Cfg(x).alone.ch, i - 7)], s |-> [i \in 1..6 |-> PastAt(Cfg(x).alone.cs, i - 7)]]

(* what the treasury of an old DAO tells *)
ObsLeg(x) == [open |-> MigOpen(x), unm |-> Unmoved(x), stage |-> IF MigOpen(x) THEN "migration_in_progress" ELSE "migration_completed",
              w |-> LET l == LegWs(x) IN [u \in Users |-> l[u] + x.leg.mig[u]], tot |-> Cfg(x).leg.tot]

Obs1(x, k) ==
  CASE k = "bal" -> x.bal [] k = "nft" -> x.nft [] k = "w" -> x.stk [] k = "cw" -> x.cmem
    [] k = "total" -> Total(x) [] k = "ctotal" -> CTotal(x)
    [] k = "members" -> Positive(x.stk) [] k = "cmembers" -> Positive(x.cmem)
    [] k = "hist" -> x.hist [] k = "chist" -> x.chist
    [] k = "nstake" -> ObsNstake(x) [] k = "claims" -> ObsClaims(x) [] k = "rclaims" -> ObsRClaims(x) [] k = "ul" -> (IF Kind(x) = "multisig" THEN [k |-> None, n |-> 0] ELSE x.ul)
    [] k = "props" -> ObsProps(x) [] k = "pacts" -> ObsPacts(x) [] k = "pfilter" -> ObsFilter(x)
    [] k = "gov" -> x.gov [] k = "council" -> ObsCouncil(x) [] k = "meta" -> x.meta [] k = "info" -> ObsInfo(x)
    [] k = "comps" -> ObsComps(x) [] k = "wl" -> x.wl [] k = "nwl" -> x.nwl [] k = "admin" -> x.admin [] k = "minw" -> x.minw
    [] k = "rew" -> x.rw [] k = "rewi" -> ObsRewI(x) [] k = "earned" -> ObsEarned(x) [] k = "cover" -> [a \in RewAssets |-> TRUE]
    [] k = "face" -> FaceObs(x)
    [] k = "told" -> x.told
    [] k = "phist" -> ObsPast(x)
    [] k = "leg" -> ObsLeg(x)
    [] k = "att" -> ObsAtt(x) [] k = "log" -> x.log [] k = "code" -> [ent |-> x.set, gov |-> x.orig, gc |-> x.orig, tre |-> x.orig, out |-> x.cset, dis |-> x.cset, mem |-> x.cset, cou |-> x.cset]

Pick(x, ks) == [k \in ks |-> Obs1(x, k)]

(***************************************************************************)
(* Hand-over of the state graph to the conformance engine                  *)
(***************************************************************************)
View == s
Key(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EmitState == PrintT(ToJson([S |-> Key(s), c |-> s.c, t |-> s.t, init |-> (act.o.op = "init"), obs |-> Pick(s, ObsKeys)]))
EmitEdge == PrintT(ToJson([E |-> Key(s), F |-> Key(s'), act |-> act'.o, ok |-> act'.ok]))
EmitCfgs == PrintT(ToJson([C |-> Cfgs]))

ASSUME EmitCfgs
=============================================================================
