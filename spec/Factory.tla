------------------------------ MODULE Factory -------------------------------
(***************************************************************************)
(* Creation of DAOs: what a creation request must satisfy, what the DAO it *)
(* yields consists of, and that DAOs created earlier or later, and         *)
(* requests that fail, have no influence on it.                            *)
(***************************************************************************)
EXTENDS Rules, TLC, TLCExt, Json, Base

CONSTANTS Cfgs, Depth, OpSet(_), ObsKeys, Users

None == "none"
Yes(x) == [ok |-> "y", s |-> x]
No(x) == [ok |-> "n", s |-> x]
When(p, x, y) == IF p THEN Yes(y) ELSE No(x)

(* outside contracts that a request may refer to *)
Voter(i) == "w" \o (IF i < 10 THEN "00" ELSE IF i < 100 THEN "0" ELSE "") \o ToString(i)
Groups == [cw3a |-> [u \in {"u1", "u2"} |-> IF u = "u1" THEN 2 ELSE 1], cw3m |-> [u \in {"u1", "u2"} |-> IF u = "u1" THEN 3 ELSE 0],
           cw3z |-> [u \in {"u1"} |-> 0], cw3e |-> [u \in {} |-> 0],
           cw3b |-> [u \in {"u1"} \cup {Voter(i) : i \in 1..119} |-> 1]]
Tokens == {"daotok", "tok", "tokb", "tokm"}         \* with holders or a minter; "tokz" has neither
Collections == {"nft", "nftx"}

CouncilMay == {"update_metadata", "update_asset_whitelist", "update_nft_whitelist", "upgrade_dao", "deploy_cross_chain_treasury"}
Share(n) == n \in 1..100
GovOk(g, multi) == /\ g.dur > 0 /\ Share(g.q) /\ Share(g.thr) /\ (g.veto = -1 \/ Share(g.veto)) /\ (multi => g.mindep = -1)
CouncilOk(c) == c.on => /\ NoDups(c.members) /\ Share(c.q) /\ Share(c.thr)
                        /\ (c.allowed = <<"default">> \/ Range(c.allowed) \subseteq CouncilMay)
CouncilCfg(c) ==
  IF c.on THEN [on |-> TRUE, q |-> c.q, thr |-> c.thr, allowed |-> IF c.allowed = <<"default">> THEN {"upgrade_dao"} ELSE Range(c.allowed)]
  ELSE [on |-> FALSE, q |-> 0, thr |-> 0, allowed |-> {}]
Multi(r) == r.kind \in {"multisig", "imp3"}
NamedOnce(l) == NoDups([i \in 1..Len(l) |-> l[i][1]])
AsMap(l) == [u \in {l[i][1] : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i][1] = u][2]]
SumMap(m) == SumF(m, DOMAIN m)

SourceOk(r) ==
  CASE r.kind = "multisig" -> r.members # <<>> /\ NamedOnce(r.members)
    [] r.kind = "imp3" -> r.tok \in DOMAIN Groups /\ SumMap(Groups[r.tok]) > 0
    [] r.kind = "token" -> r.tok \in Tokens
    [] r.kind = "new20" -> /\ NamedOnce(r.members) /\ (\A i \in 1..Len(r.members) : r.members[i][2] > 0) /\ r.daobal # 0
                           /\ (r.members # <<>> \/ r.mint # None)
    [] r.kind = "nft" -> r.tok \in Collections
    [] OTHER -> TRUE

(* a request that can be granted *)
Valid(x, r) ==
  /\ GovOk(r.gov, Multi(r)) /\ CouncilOk(r.council) /\ SourceOk(r)
  /\ (~Multi(r) /\ r.ul.k = "time" => r.ul.n >= r.gov.dur)
  /\ Len(r.cross) <= x.luna

(* the registry the factory uses: the first one, or another with versions of its own *)
Other == (<<1, 2, 1>> :> 3) @@ (<<1, 4, 0>> :> 1)
Vers(x) == IF x.reg = "ver" THEN x.vers ELSE Other
Latest(x) == CHOOSE v \in DOMAIN Vers(x) : \A w \in DOMAIN Vers(x) : VerLe(w, v)

Members(r) == CASE r.kind = "multisig" -> AsMap(r.members) [] r.kind = "imp3" -> Groups[r.tok] [] OTHER -> [u \in Users |-> 0]
FreshDao(x, r, v) ==
  [r |-> r, ver |-> v, set |-> Vers(x)[v], reg |-> x.reg, at |-> x.t, mem |-> Members(r), minw |-> IF r.minw < 0 THEN 0 ELSE r.minw,
   rew |-> [u \in Users |-> 0], props |-> 0, sgn |-> {}, ids |-> [u \in Users |-> {}],
   code |-> IF r.kind = "new20" THEN x.c20 ELSE IF r.kind = "new721" THEN x.c721 ELSE None,
   bal |-> IF r.kind = "new20" THEN AsMap(r.members) ELSE [u \in {} |-> 0]]

Create(x, r, v) == [x EXCEPT !.daos = Append(@, FreshDao(x, r, v)), !.luna = @ - Len(r.cross)]

Weight(d, u) == IF u \in DOMAIN d.mem THEN d.mem[u] ELSE 0
Eff(d, u) == IF Weight(d, u) >= d.minw THEN Weight(d, u) ELSE 0
EffTotal(d) == SumF([u \in DOMAIN d.mem |-> Eff(d, u)], DOMAIN d.mem)
Restricted(d, u) == d.r.att # "" /\ u \notin d.sgn
Held(d, u) == IF u \in DOMAIN d.bal THEN d.bal[u] ELSE 0
Grow(d, u) == [d EXCEPT !.mem = [v \in DOMAIN @ \cup {u} |-> IF v = u THEN Weight(d, u) + 1 ELSE @[v]]]
At(x, i, d) == [x EXCEPT !.daos[i] = d]

Apply(x, op) ==
  CASE op.op = "create" ->
        LET v == IF op.v = <<>> THEN Latest(x) ELSE op.v IN
        IF DOMAIN Vers(x) = {} \/ (op.v # <<>> /\ op.v \notin DOMAIN Vers(x)) THEN No(x)
        ELSE When(Valid(x, op.r), x, Create(x, op.r, v))
    [] op.op = "relver" -> When(op.v \notin DOMAIN x.vers, x, [x EXCEPT !.vers = [v \in DOMAIN @ \cup {op.v} |-> IF v = op.v THEN op.set ELSE @[v]]])
    [] op.op = "facconf" -> When(op.by = x.adm, x, [x EXCEPT !.c20 = IF op.c20 = "" THEN @ ELSE op.c20, !.c721 = IF op.c721 = "" THEN @ ELSE op.c721, !.adm = IF op.to = "" THEN @ ELSE op.to, !.reg = IF op.reg = "" THEN @ ELSE op.reg])
    [] op.op = "tick" -> Yes([x EXCEPT !.t = op.to])
    (* life of the DAOs: each one's parts work together, and only together *)
    [] op.op = "fminw" -> When(op.i = op.d, x, At(x, op.i, [x.daos[op.i] EXCEPT !.minw = op.w]))
    [] op.op = "fsign" -> Yes(At(x, op.i, [x.daos[op.i] EXCEPT !.sgn = @ \cup {op.by}]))
    [] op.op = "fstake" ->
        LET d == x.daos[op.i] IN
        IF d.r.kind \in {"denom", "token"} THEN When(~Restricted(d, op.by) /\ (d.r.kind = "token" => d.r.tok = "daotok"), x, At(x, op.i, Grow(d, op.by)))
        ELSE IF d.r.kind = "new20" THEN When(~Restricted(d, op.by) /\ Held(d, op.by) > 0, x, At(x, op.i, Grow([d EXCEPT !.bal[op.by] = @ - 1], op.by)))
        ELSE When(Multi(d.r), x, At(x, op.i, Grow(d, op.by)))
    [] op.op = "fdist" ->
        LET d == x.daos[op.i] IN
        When(EffTotal(d) > 0, x, At(x, op.i, [d EXCEPT !.rew = [u \in Users |-> @[u] + (op.n \div EffTotal(d)) * Eff(d, u)]]))
    [] op.op = "fprop" ->
        LET d == x.daos[op.i] IN When(Weight(d, op.by) > 0 /\ ~Restricted(d, op.by), x, At(x, op.i, [d EXCEPT !.props = @ + 1]))

RECURSIVE Setup(_, _)
Setup(x, ops) == IF ops = <<>> THEN x ELSE LET r == Apply(x, Head(ops)) IN
  IF r.ok = "n" THEN Assert(FALSE, <<"setup refused", Head(ops)>>) ELSE Setup(r.s, Tail(ops))
InitState(c) ==
  LET k == Cfgs[c]
      vs == [v \in {k.versions[i][1] : i \in 1..Len(k.versions)} |-> k.versions[CHOOSE i \in 1..Len(k.versions) : k.versions[i][1] = v][2]]
  IN [Setup([c |-> c, t |-> -1, vers |-> vs, reg |-> "ver", c20 |-> "cw20", c721 |-> "cw721", adm |-> "facadmin", luna |-> k.bal.luna.fac, daos |-> <<>>], k.setup) EXCEPT !.t = 0]

VARIABLES s, act
vars == <<s, act>>
Init == /\ \E c \in 1..Len(Cfgs) : s = InitState(c)
        /\ act = [o |-> [op |-> "init"], ok |-> "y"]
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in OpSet(s) : LET r == Apply(s, o) IN s' = r.s /\ act' = [o |-> o, ok |-> r.ok]

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
(* one more DAO per granted request, everything else as it was; operations on one DAO leave the others alone *)
A_F01 == [][ /\ Len(s'.daos) \in {Len(s.daos), Len(s.daos) + 1}
             /\ (Len(s'.daos) > Len(s.daos) => act'.o.op = "create" /\ \A i \in 1..Len(s.daos) : s'.daos[i] = s.daos[i])
             /\ (act'.ok = "n" => s' = s)
             /\ (\A i \in 1..Len(s.daos) : s'.daos[i] # s.daos[i] => act'.o.i = i) ]_vars
(* what a DAO starts with is what was asked for; its members can act at all *)
A_F02 == [][ (act'.o.op = "create" /\ act'.ok = "y") =>
               LET d == s'.daos[Len(s'.daos)] IN
               /\ d.r = act'.o.r /\ d.ver = (IF act'.o.v = <<>> THEN Latest(s) ELSE act'.o.v)
               /\ (d.r.kind = "multisig" => \A u \in DOMAIN d.mem : \E i \in 1..Len(d.r.members) : d.r.members[i] = <<u, d.mem[u]>>)
               /\ (~Multi(d.r) => SumMap(d.mem) = 0) ]_vars
I_F02 == \A i \in 1..Len(s.daos) : LET d == s.daos[i] IN
           /\ (Multi(d.r) => SumMap(d.mem) > 0) /\ GovOk(d.r.gov, Multi(d.r)) /\ CouncilOk(d.r.council)
           /\ (~Multi(d.r) /\ d.r.ul.k = "time" => d.r.ul.n >= d.r.gov.dur)

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
Type(r) == CASE r.kind = "denom" -> "denom" [] r.kind \in {"token", "new20"} -> "token" [] Multi(r) -> "multisig" [] OTHER -> "nft"
Positive(m) == [u \in {u \in DOMAIN m : m[u] > 0} |-> m[u]]
AdmObs(d) == [c \in {"ent", "gov", "gc", "out", "tre", "dis", "mem", "cou"} |-> "ent"]
CodeObs(d) == [c \in {"ent", "gov", "gc", "out", "tre", "dis", "mem", "cou"} |-> d.set]
AssetObs(d) ==
  CASE d.r.kind = "denom" -> [denom |-> "udao"]
    [] d.r.kind = "token" -> [imp |-> d.r.tok]
    [] d.r.kind = "new20" -> [sym |-> "NEWTOK", name |-> "New " \o d.r.name, dec |-> 4, supply |-> SumSeq([i \in 1..Len(d.r.members) |-> d.r.members[i][2]]) + (IF d.r.daobal > 0 THEN d.r.daobal ELSE 0),
                              bal |-> [u \in Users |-> Held(d, u)], tre |-> IF d.r.daobal > 0 THEN d.r.daobal ELSE 0,
                              minter |-> IF d.r.mint = None THEN "ent" ELSE d.r.mint, mkt |-> IF d.r.mkt = None THEN "ent" ELSE d.r.mkt, adm |-> "ent", code |-> d.code]
    [] d.r.kind = "nft" -> [imp |-> d.r.tok]
    [] d.r.kind = "new721" -> [name |-> "New " \o d.r.name, sym |-> "NEWNFT", minter |-> IF d.r.mint = None THEN "ent" ELSE d.r.mint, tokens |-> 0, adm |-> "ent", code |-> d.code]
    [] d.r.kind = "ics721" -> [class |-> "cls1", bridge |-> "bridge"]
    [] OTHER -> [none |-> TRUE]
Requests(r) == [i \in 1..Len(r.cross) |-> [k |-> "proxy", chan |-> r.cross[i].chan, to |-> r.cross[i].gp, cb |-> i]]
DaoObs(d, i) ==
  [id |-> i, info |-> [type |-> Type(d.r), created |-> d.at, ver |-> d.ver], adm |-> AdmObs(d), code |-> CodeObs(d),
   meta |-> [name |-> d.r.name, desc |-> "desc0", logo |-> "logo0", gh |-> "gh0", dc |-> "dc0", tw |-> "tw0", tg |-> "tg0"],
   comps |-> [fac |-> "fac", ver |-> d.reg, gov |-> "gov", gc |-> "gc", out |-> "out", tre |-> "tre", dis |-> "dis", mem |-> "mem", cou |-> "cou"],
   link |-> [mem |-> "ent", cou |-> "ent"],
   members |-> Positive(d.mem), total |-> SumMap(d.mem), cmembers |-> [u \in Range(d.r.council.members) |-> 1], ctotal |-> Len(d.r.council.members),
   gov |-> d.r.gov, council |-> CouncilCfg(d.r.council), ul |-> IF Multi(d.r) THEN [k |-> None, n |-> 0] ELSE d.r.ul,
   minw |-> d.minw, wl |-> Range(d.r.white), nwl |-> Range(d.r.nftw), rew |-> [cash |-> d.rew],
   att |-> [cur |-> IF d.r.att = "" THEN None ELSE d.r.att, restr |-> [u \in Users |-> Restricted(d, u)], signed |-> [u \in Users |-> u \in d.sgn]],
   asset |-> AssetObs(d), nprops |-> d.props, xsent |-> Requests(d.r)]
Obs1(x, k) == CASE k = "daos" -> [i \in 1..Len(x.daos) |-> DaoObs(x.daos[i], i)]
                [] k = "ids" -> [n |-> Len(x.daos), names |-> [i \in 1..Len(x.daos) |-> x.daos[i].r.name]]
                [] k = "fac" -> [luna |-> x.luna, adm |-> x.adm, reg |-> x.reg, c20 |-> x.c20, c721 |-> x.c721, gwl |-> Range(Cfgs[x.c].gwhite), gnwl |-> Range(Cfgs[x.c].gnftw)]
Pick(x, ks) == [k \in ks |-> Obs1(x, k)]

View == s
Key(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EmitState == PrintT(ToJson([S |-> Key(s), c |-> s.c, t |-> s.t, init |-> (act.o.op = "init"), obs |-> Pick(s, ObsKeys)]))
EmitEdge == PrintT(ToJson([E |-> Key(s), F |-> Key(s'), act |-> act'.o, ok |-> act'.ok]))
ASSUME PrintT(ToJson([C |-> Cfgs]))
=============================================================================
