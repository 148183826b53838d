------------------------------ MODULE Registry ------------------------------
(* The version registry: an append-only, ordered store of released versions *)
(* kept by an administrator.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Cfgs, Depth, OpSet(_), ObsKeys, Probes

Comps == {"attestation", "enterprise", "enterprise_governance", "enterprise_governance_controller", "enterprise_outposts",
          "enterprise_treasury", "funds_distributor", "token_staking_membership", "denom_staking_membership",
          "nft_staking_membership", "multisig_membership"}
Fields == Comps \cup {"log"}
CompSeq == <<"attestation", "enterprise", "enterprise_governance", "enterprise_governance_controller", "enterprise_outposts",
          "enterprise_treasury", "funds_distributor", "token_staking_membership", "denom_staking_membership",
          "nft_staking_membership", "multisig_membership">>
Pos(c) == CHOOSE i \in 1..Len(CompSeq) : CompSeq[i] = c
(* the version information that carries distinct numbers everywhere, from a base *)
Info(base) == [f \in Fields |-> IF f = "log" THEN base ELSE base * 100 + Pos(f)]

Before(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])

Yes(x) == [ok |-> "y", s |-> x]
No(x) == [ok |-> "n", s |-> x]
When(p, x, y) == IF p THEN Yes(y) ELSE No(x)

Apply(x, op) ==
  CASE op.op = "addver" ->
        When(op.by = x.admin /\ op.v \notin DOMAIN x.vers, x,
             [x EXCEPT !.vers = [v \in DOMAIN x.vers \cup {op.v} |-> IF v = op.v THEN Info(op.base) ELSE x.vers[v]]])
    [] op.op = "editver" ->
        IF op.by = x.admin /\ op.v \in DOMAIN x.vers
        THEN Yes([x EXCEPT !.vers[op.v] = [f \in Fields |-> IF f \in op.f THEN Info(op.base)[f] ELSE @[f]]])
        ELSE No(x)
    [] op.op = "veradmin" -> When(op.by = x.admin, x, [x EXCEPT !.admin = op.to])

RECURSIVE Setup(_, _)
Setup(x, ops) == IF ops = <<>> THEN x ELSE LET r == Apply(x, Head(ops)) IN
  IF r.ok = "n" THEN Assert(FALSE, <<"setup refused", Head(ops)>>) ELSE Setup(r.s, Tail(ops))
NoVers == [v \in {} |-> Info(0)]
InitState(c) == Setup([c |-> c, t |-> 0, admin |-> "veradmin", vers |-> NoVers], Cfgs[c].setup)

VARIABLES s, act
vars == <<s, act>>
Init == /\ \E c \in 1..Len(Cfgs) : s = InitState(c)
        /\ act = [o |-> [op |-> "init"], ok |-> "y"]
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in OpSet(s) : LET r == Apply(s, o) IN s' = r.s /\ act' = [o |-> o, ok |-> r.ok]

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : m = n \/ Before(m, n) IN <<m>> \o Sorted(S \ {m})
(* nothing disappears, only the administrator changes anything, an addition leaves the present versions alone *)
A_E03 == [][ /\ DOMAIN s.vers \subseteq DOMAIN s'.vers
             /\ (s' # s => act'.o.by = s.admin)
             /\ (act'.o.op = "addver" => \A v \in DOMAIN s.vers : s'.vers[v] = s.vers[v])
             /\ (act'.o.op = "editver" => DOMAIN s'.vers = DOMAIN s.vers /\ \A v \in DOMAIN s.vers : v # act'.o.v => s'.vers[v] = s.vers[v]) ]_vars
I_E03 == LET l == Sorted(DOMAIN s.vers) IN \A i \in 1..(Len(l) - 1) : Before(l[i], l[i + 1])

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
Entry(x, v) == [v |-> v, i |-> x.vers[v]]
ObsReg(x) ==
  LET l == Sorted(DOMAIN x.vers) IN
  [admin |-> x.admin, list |-> [i \in 1..Len(l) |-> Entry(x, l[i])],
   latest |-> IF l = <<>> THEN "none" ELSE Entry(x, l[Len(l)]),
   at |-> [i \in 1..Len(Probes) |-> [p |-> Probes[i],
            has |-> IF Probes[i] \in DOMAIN x.vers THEN Entry(x, Probes[i]) ELSE "none",
            after |-> Sorted({v \in DOMAIN x.vers : Before(Probes[i], v)})]]]
Obs1(x, k) == CASE k = "reg" -> ObsReg(x)
Pick(x, ks) == [k \in ks |-> Obs1(x, k)]

View == s
Key(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EmitState == PrintT(ToJson([S |-> Key(s), c |-> s.c, t |-> s.t, init |-> (act.o.op = "init"), obs |-> Pick(s, ObsKeys)]))
EmitEdge == PrintT(ToJson([E |-> Key(s), F |-> Key(s'), act |-> act'.o, ok |-> act'.ok]))
ASSUME PrintT(ToJson([C |-> Cfgs]))
=============================================================================
