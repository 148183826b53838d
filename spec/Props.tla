------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The listed properties as invariants (I_..) and step properties (A_..)   *)
(* of the specification.  TLC checks them on every slice that explores the *)
(* operations concerned; conformance carries them over to the code.        *)
(***************************************************************************)
EXTENDS Dao

OpOf == act'.o.op
Done == act'.ok # "n"
ByWhom == IF "by" \in DOMAIN act'.o THEN act'.o.by ELSE None
PIdx == DOMAIN s.props

(* supply of every asset and of every NFT is constant *)
Supply(a) == LET m == Get(Cfg(s).bal, a, NoFn) IN SumF(m, DOMAIN m)
I_Conserve == \A a \in Assets : SumF(s.bal[a], Accts) = Supply(a)
I_NonNeg == /\ \A a \in Assets : \A x \in Accts : s.bal[a][x] >= 0
            /\ \A u \in Users : s.stk[u] >= 0 /\ s.cmem[u] >= 0

(* G01: passing means what the rule says, independently restated *)
I_G01 ==
  \A i \in PIdx : LET p == s.props[i] r == Tally(s, p) cast == Cast(r) base == cast - r[3] n == Avail(s, p) IN
    (VerdictOf(s, p) = "passed") <=>
      /\ n > 0 /\ Den(p.q) * cast >= Num(p.q) * n
      /\ base > 0 /\ Den(p.th) * r[1] >= Num(p.th) * base /\ r[1] # r[2]
      /\ (Den(p.th) * r[2] >= Num(p.th) * base => r[1] > r[2])
      /\ LET ve == IF p.ve < 0 THEN p.th ELSE p.ve IN Den(ve) * r[4] < Num(ve) * base

(* G02: every voter counts once; after closing nothing changes *)
I_G02 == \A i \in PIdx : LET p == s.props[i] r == Tally(s, p) IN
           Cast(r) = SumF([u \in Users |-> IF p.v[u] < 4 THEN VW(s, p, u) ELSE 0], Users)
A_G02 == [][\A i \in PIdx : LET p == s.props[i] p2 == s'.props[i] IN
             ~Open(s, p) => Tally(s', p2) = Tally(s, p) /\ p2.v = p.v /\ Avail(s', p2) = Avail(s, p)]_vars
(* tallies never exceed the weight available while a vote is open *)
I_G02b == \A i \in PIdx : LET p == s.props[i] IN (p.k = "g" /\ p.res = "open" /\ s.t < p.en) => Cast(Tally(s, p)) <= Avail(s, p)

(* G03/G08: who votes *)
A_G03 == [][(OpOf = "vote" /\ Done) =>
              LET u == ByWhom p == s.props[act'.o.p] IN
                s.stk[u] > 0 /\ ~Restricted(s, u) /\ p.k = "g" /\ p.res = "open" /\ s.t >= p.st /\ s.t < p.en]_vars
A_G08 == [][/\ (OpOf = "cvote" /\ Done) => s.cou.on /\ s.cmem[ByWhom] > 0 /\ s.props[act'.o.p].k = "c"
            /\ (OpOf = "cpropose" /\ Done) => s.cou.on /\ s.cmem[ByWhom] > 0]_vars
I_G08 == s.cou.allowed \subseteq CouncilMay
          /\ \A i \in PIdx : s.props[i].k = "c" => \A j \in 1..Len(s.props[i].acts) : ActType(s.props[i].acts[j]) \in CouncilMay

(* G04: once, and not too early *)
A_G04 == [][/\ \A i \in PIdx : s.props[i].res # "open" => s'.props[i] = s.props[i]
            /\ \A i \in PIdx : (s.props[i].res = "open" /\ s'.props[i].res # "open") =>
                 /\ OpOf \in {"exec", "seq"}
                 /\ LET p == s.props[i] IN OpOf = "exec" =>
                      (s.t >= p.en \/ (Decisive(VerdictOf(s, p)) /\ s.t >= p.ear /\ (p.k = "c" \/ s.gov.early)))]_vars

(* G06: deposits of unresolved proposals are all there *)
RECURSIVE OpenDeps(_)
OpenDeps(q) == IF q = <<>> THEN 0 ELSE (IF Head(q).res = "open" THEN Head(q).dep ELSE 0) + OpenDeps(Tail(q))
I_G06 == s.bal["dao"]["gc"] >= OpenDeps(s.props)
          /\ \A i \in PIdx : s.props[i].res = "open" => \A j \in 1..Len(s.props[i].dtok) : s.nft[s.props[i].dtok[j]] = "gc"
A_G06 == [][\A i \in PIdx : LET p == s.props[i] IN
              (OpOf = "exec" /\ p.res = "open" /\ s'.props[i].res # "open" /\ p.dep > 0 /\ s'.props[i].res # "passed") =>
                LET to == IF s'.props[i].res \in {"noquorum", "veto"} THEN "tre" ELSE p.own IN
                  /\ s'.bal["dao"]["gc"] = s.bal["dao"]["gc"] - p.dep
                  /\ s'.bal["dao"][to] = s.bal["dao"][to] + p.dep]_vars

(* G05/G11: only resolving a proposal that passed has effects of actions *)
Parts(x) == <<x.gov, x.cou, x.cmem, x.meta, x.wl, x.nwl, x.minw, x.ver, x.att, x.ul, x.admin>>
A_G05 == [][(OpOf \in {"vote", "cvote", "propose", "cpropose", "tick", "stake", "unstake", "claim", "claimrew", "dist"}) => Parts(s') = Parts(s)]_vars
A_G05b == [][(OpOf = "exec" /\ Done /\ s'.props[act'.o.p].res # "passed") => Parts(s') = Parts(s)]_vars

(* G10 *)
I_G10 == GovValid(s, s.gov)
A_G10 == [][\A i \in PIdx : LET p == s.props[i] p2 == s'.props[i] IN
              p.q = p2.q /\ p.th = p2.th /\ p.ve = p2.ve /\ p.en = p2.en /\ p.acts = p2.acts /\ p.own = p2.own /\ p.dep = p2.dep]_vars

(* M01, M03: custody *)
ClaimSum == SumSeq([i \in 1..Len(s.clm) |-> s.clm[i].amt])
I_M01 == Kind(s) \in {"denom", "token"} => s.bal["dao"]["mem"] = Total(s) + ClaimSum
I_M03 == IsNft(s) =>
  /\ \A u \in Users : s.stk[u] = Cardinality({x \in DOMAIN s.nst : s.nst[x] = u})
  /\ \A x \in DOMAIN s.nst : (s.nft[x] = "mem") =
       ((IF s.nst[x] # None THEN 1 ELSE 0) + Cardinality({i \in 1..Len(s.clm) : x \in Range(s.clm[i].ids)}) = 1)
  /\ \A x \in DOMAIN s.nst : s.nst[x] # None => \A i \in 1..Len(s.clm) : x \notin Range(s.clm[i].ids)
A_M02 == [][\A i \in 1..Len(s.clm) : LET c == s.clm[i] IN
              (\A j \in 1..Len(s'.clm) : s'.clm[j] # c) => (OpOf = "claim" /\ ByWhom = c.u /\ s.t >= c.rel.n)]_vars

(* R01, R02 *)
I_R02 == \A a \in RewAssets : s.bal[a]["dis"] >= SumF(s.rw[a], Users)
A_R01 == [][\A a \in RewAssets : \A u \in Users : s'.rw[a][u] < s.rw[a][u] => (OpOf = "claimrew" /\ ByWhom = u)]_vars
A_R01b == [][(OpOf \in {"stake", "unstake", "minw", "editm", "setm"}) => s'.rw = s.rw]_vars

(* T01 *)
A_T01 == [][(\E a \in Assets : s'.bal[a]["tre"] < s.bal[a]["tre"]) => (ByWhom = s.admin \/ OpOf \in {"exec", "seq", "mig"})]_vars

(* T03: a step hands over, everything stays accounted for *)
Bag(q) == [c \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = c})]
Real(q) == SelectSeq(q, LAMBDA c : c.amt > 0 \/ c.ids # <<>>)
Legs(x) == IF IsNft(x) THEN EachTok(x.leg.clm, 1) ELSE SelectSeq(x.leg.clm, LAMBDA c : c.amt > 0)
I_T03 == s.leg.on =>
  /\ s.leg.stage = "migration_completed" => (Cfg(s).leg.stage = s.leg.stage \/ ~Unmoved(s))
  /\ LET l == LegWs(s) f == LegWs(Fresh(s.c)) IN \A u \in Users : l[u] + s.leg.mig[u] = f[u]
A_T03 == [][s.leg.on =>
  /\ (OpOf # "mig" \/ ~Done) => s'.leg = s.leg
  /\ (OpOf = "mig" /\ Kind(s) # "multisig") =>
       /\ LET l == LegWs(s) l2 == LegWs(s') IN \A u \in Users : l2[u] + s'.stk[u] = l[u] + s.stk[u]
       /\ Bag(Legs(s') \o Real(s'.clm)) = Bag(Legs(s) \o Real(s.clm))
       /\ (Kind(s) = "token" => s.bal["dao"]["tre"] - s'.bal["dao"]["tre"] = s'.bal["dao"]["mem"] - s.bal["dao"]["mem"])
       /\ (IsNft(s) => \A x \in DOMAIN s.nst : (s'.nst[x] # s.nst[x]) => (s.nst[x] = None /\ s.nft[x] = "tre"))
       /\ (Done /\ act'.o.n # 0 /\ Unmoved(s)) => Len(s'.leg.st) + Len(s'.leg.clm) < Len(s.leg.st) + Len(s.leg.clm) ]_vars

(* M08: whoever is registered and in step stays in step *)
InStep(x, l, c, u) == LET k == c \o "." \o u IN k \in DOMAIN x.told[l] => x.told[l][k][2] = Weights(x, c)[u]
A_M08 == [][\A c \in Rolls : \A l \in s.lst[c] :
             /\ (Changed(s, s', c) # {} => Hears(l))
             /\ Hears(l) => \A u \in Users : /\ (u \in Changed(s, s', c) => c \o "." \o u \in DOMAIN s'.told[l])
                                             /\ (InStep(s, l, c, u) \/ u \in Changed(s, s', c)) => InStep(s', l, c, u)]_vars
A_M08b == [][s'.lst # s.lst => (OpOf = "hook" /\ ByWhom = "gc")]_vars
(* nobody else is told *)
A_M08c == [][\A l \in DOMAIN s.told : (\A c \in Rolls : l \notin s.lst[c]) => s'.told[l] = s.told[l]]_vars

(* E01 *)
A_E01 == [][(Done /\ OpOf \in {"propose", "cpropose", "vote", "cvote", "exec", "claimrew"}) => ~Restricted(s, ByWhom)]_vars
A_E01b == [][(Done /\ OpOf \in {"stake", "stakenft"}) =>
              ~Restricted(s, IF act'.o.for = "self" THEN ByWhom ELSE act'.o.for)]_vars

(* E02: versions only rise *)
A_E02 == [][VerLe(s.ver, s'.ver)]_vars
=============================================================================
