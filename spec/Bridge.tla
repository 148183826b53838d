------------------------------- MODULE Bridge -------------------------------
(***************************************************************************)
(* Two DAOs whose members stake tokens of one NFT class living on another  *)
(* chain.  The bridge knows the local contract of the class only after the *)
(* first token arrived; the callback proxy stakes arriving tokens for the  *)
(* user named in the transfer.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, Base

CONSTANTS Cfgs, Depth, OpSet(_), ObsKeys, Users

Mems == {"mem", "mem2"}
None == "none"
Range(q) == {q[i] : i \in 1..Len(q)}
NoDups(q) == Cardinality(Range(q)) = Len(q)
Tok(coll, id) == IF coll = "nft" THEN id ELSE "x:" \o id

Yes(x) == [ok |-> "y", s |-> x]
No(x) == [ok |-> "n", s |-> x]
When(p, x, y) == IF p THEN Yes(y) ELSE No(x)

(* the collection whose tokens membership m takes: the one it took first, before that the one the bridge knows *)
Takes(x, m) == IF x.fix[m] # None THEN x.fix[m] ELSE x.bridge["cls1"]
Restricted(x, m, u) == x.att /\ ~(u \in x.sgn[m])

(* one token sent by `by` to m with a stake request for u *)
StakeOne(x, by, coll, id, m, u) ==
  LET k == Tok(coll, id) IN
  When(/\ m \in Mems /\ k \in DOMAIN x.own /\ x.own[k] = by
       /\ Takes(x, m) = coll /\ ~Restricted(x, m, u),
       x, [x EXCEPT !.own[k] = m, !.fix[m] = coll, !.st[m] = [j \in DOMAIN @ |-> IF j = id THEN u ELSE @[j]]])

RECURSIVE StakeAll(_, _, _, _, _, _)
StakeAll(x, by, coll, ids, m, u) ==
  IF ids = <<>> THEN Yes(x)
  ELSE LET r == StakeOne(x, by, coll, Head(ids), m, u) IN
       IF r.ok = "n" THEN r ELSE StakeAll(r.s, by, coll, Tail(ids), m, u)

ReleaseAt(x) == [k |-> Cfgs[x.c].ul.k, n |-> x.t + Cfgs[x.c].ul.n]
RECURSIVE Part(_, _, _, _)
Part(x, q, u, rel) ==
  IF q = <<>> THEN <<>>
  ELSE (IF (Head(q).u = u /\ x.t >= Head(q).rel.n) = rel THEN <<Head(q)>> ELSE <<>>) \o Part(x, Tail(q), u, rel)

Apply(x, op) ==
  CASE op.op = "tick" -> Yes([x EXCEPT !.t = op.to])
    [] op.op = "learn" -> Yes([x EXCEPT !.bridge[op.class] = op.coll])
    [] op.op = "sign" -> Yes([x EXCEPT !.sgn[IF op.c = "att2" THEN "mem2" ELSE "mem"] = @ \cup {op.by}])
    [] op.op = "nftgive" ->
         LET k == Tok(op.coll, op.id) IN When(k \in DOMAIN x.own /\ x.own[k] = op.by, x, [x EXCEPT !.own[k] = op.to])
    [] op.op = "stakenft" -> StakeOne(x, op.by, op.coll, op.id, "mem", op.for)
    [] op.op = "addclaimnft" ->
         LET k == Tok(op.coll, op.id) IN
         When(/\ k \in DOMAIN x.own /\ x.own[k] = op.by /\ Takes(x, "mem") = op.coll, x,
              [x EXCEPT !.own[k] = "mem", !.fix["mem"] = op.coll,
                        !.clm["mem"] = Append(@, [u |-> op.for, ids |-> <<op.id>>, rel |-> [k |-> "time", n |-> op.rel]])])
    [] op.op = "fakenft" -> No(x)
    [] op.op = "icsin" ->
         IF op.by # "bridge" THEN No(x)
         ELSE IF op.form # "stake" THEN Yes(x)
         ELSE LET r == StakeAll(x, "icsproxy", op.coll, op.ids, op.to, op.user) IN IF r.ok = "n" THEN No(x) ELSE r
    [] op.op = "unstake" ->
         When(NoDups(op.ids) /\ \A i \in 1..Len(op.ids) : op.ids[i] \in DOMAIN x.st["mem"] /\ x.st["mem"][op.ids[i]] = op.by, x,
              [x EXCEPT !.st["mem"] = [j \in DOMAIN @ |-> IF j \in Range(op.ids) THEN None ELSE @[j]],
                        !.clm["mem"] = Append(@, [u |-> op.by, ids |-> op.ids, rel |-> ReleaseAt(x)])])
    [] op.op = "claim" ->
         LET out == UNION {{Tok(x.fix["mem"], c) : c \in Range(e.ids)} : e \in Range(Part(x, x.clm["mem"], op.by, TRUE))} IN
         IF out = {} THEN [ok |-> "any", s |-> x]
         ELSE Yes([x EXCEPT !.own = [k \in DOMAIN @ |-> IF k \in out THEN op.by ELSE @[k]], !.clm["mem"] = Part(x, @, op.by, FALSE)])

Ids == {"a", "b", "c"}
RECURSIVE Setup(_, _)
Setup(x, ops) == IF ops = <<>> THEN x ELSE LET r == Apply(x, Head(ops)) IN
  IF r.ok = "n" THEN Assert(FALSE, <<"setup refused", Head(ops)>>) ELSE Setup(r.s, Tail(ops))
InitState(c) ==
  LET x == Setup([c |-> c, t |-> -1, att |-> Cfgs[c].att # "", sgn |-> [m \in Mems |-> {}], bridge |-> [k \in {"cls1", "cls2"} |-> None], fix |-> [m \in Mems |-> None],
                  own |-> Cfgs[c].nft, st |-> [m \in Mems |-> [i \in Ids |-> None]], clm |-> [m \in Mems |-> <<>>]], Cfgs[c].setup)
  IN [x EXCEPT !.t = 0]

VARIABLES s, act
vars == <<s, act>>
Init == /\ \E c \in 1..Len(Cfgs) : s = InitState(c)
        /\ act = [o |-> [op |-> "init"], ok |-> "y"]
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in OpSet(s) : LET r == Apply(s, o) IN s' = r.s /\ act' = [o |-> o, ok |-> r.ok]

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
(* stakes and claims of a membership are tokens it holds, of the one collection it takes *)
Claimed(x, m) == {x.clm[m][i] : i \in 1..Len(x.clm[m])}
I_X03 == \A m \in Mems :
  /\ \A i \in Ids : s.st[m][i] # None => s.fix[m] # None /\ s.own[Tok(s.fix[m], i)] = m
  /\ \A e \in Claimed(s, m) : \A i \in Range(e.ids) : s.own[Tok(s.fix[m], i)] = m /\ s.st[m][i] = None
(* only the bridge moves what the proxy holds, and then every token named goes to the named membership for the named user *)
A_X03 == [][
  /\ (\A k \in DOMAIN s.own : (s.own[k] = "icsproxy" /\ s'.own[k] # "icsproxy") =>
        /\ act'.o.op = "icsin" /\ act'.o.by = "bridge" /\ s'.own[k] = act'.o.to)
  /\ ((act'.o.op = "icsin" /\ s' # s) => \A i \in Range(act'.o.ids) : s'.st[act'.o.to][i] = act'.o.user)
  /\ (\A m \in Mems : \A i \in Ids : (s.st[m][i] = None /\ s'.st[m][i] # None) => s.bridge["cls1"] # None \/ s.fix[m] # None)
  /\ (\A m \in Mems : s.fix[m] # None => s'.fix[m] = s.fix[m]) ]_vars

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
ObsMem(x, m) ==
  [addr |-> Takes(x, m),
   st |-> [u \in Users |-> {i \in Ids : x.st[m][i] = u}],
   total |-> Cardinality({i \in Ids : x.st[m][i] # None}),
   clm |-> [u \in Users |-> LET q == SelectSeq(x.clm[m], LAMBDA e : e.u = u) IN [i \in 1..Len(q) |-> [ids |-> q[i].ids, rel |-> q[i].rel]]]]
Obs1(x, k) == CASE k = "nft" -> x.own [] k = "bridged" -> [m \in Mems |-> ObsMem(x, m)]
Pick(x, ks) == [k \in ks |-> Obs1(x, k)]

View == s
Key(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EmitState == PrintT(ToJson([S |-> Key(s), c |-> s.c, t |-> s.t, init |-> (act.o.op = "init"), obs |-> Pick(s, ObsKeys)]))
EmitEdge == PrintT(ToJson([E |-> Key(s), F |-> Key(s'), act |-> act'.o, ok |-> act'.ok]))
ASSUME PrintT(ToJson([C |-> Cfgs]))
=============================================================================
