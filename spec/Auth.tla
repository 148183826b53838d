------------------------------- MODULE Auth ---------------------------------
(* Who may call what. For each operation reserved for a particular party,   *)
(* Entitled names that party; every other caller is refused.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, Base

CONSTANTS Cfgs, Depth, OpSet(_), ObsKeys

Parts == {"ent", "gov", "gc", "out", "tre", "dis", "mem", "cou"}
Other(p) == CASE p = "ent" -> "ent2" [] p = "gov" -> "gov2" [] p = "gc" -> "gc2" [] p = "out" -> "out2"
              [] p = "tre" -> "tre2" [] p = "dis" -> "dis2" [] p = "mem" -> "mem2" [] OTHER -> "cou2"
Callers == Parts \cup {Other(p) : p \in Parts}
           \cup {"u1", "u2", "u3", "creator", "veradmin", "facadmin", "owner", "mint", "fac", "ver", "facade", "bridge", "icsproxy", "daotok", "tok", "tokb", "nft", "nftx", "rec"}

(* a DAO in which somebody has staked, proposed and voted and which has a council *)
Busy(x) == Len(Cfgs[x.c].setup) > 0
Kind(x) == Cfgs[x.c].kind

OfMem(k) == {"mem/add_hook", "mem/remove_hook"}
            \cup (IF k = "multisig" THEN {"mem/update_members", "mem/set_members"} ELSE {"mem/unlocking"})
            \cup (IF k = "token" THEN {"mem/receive_stake", "mem/receive_add_stakes", "mem/receive_add_claims"} ELSE {})
            \cup (IF k = "nft" THEN {"mem/receive_nft", "mem/receive_nft_claim"} ELSE {})
Ops(k) == OfMem(k) \cup {"cou/update_members", "cou/set_members", "cou/add_hook", "cou/remove_hook",
            "gov/create_poll", "gov/cast_vote", "gov/update_votes", "gov/end_poll",
            "ent/update_metadata", "ent/upgrade", "ent/update_config", "ent/set_attestation", "ent/remove_attestation", "ent/execute_msgs", "ent/finalize",
            "gc/weights_changed", "gc/execute_actions", "gc/receive", "gc/deploy_initial", "gc/cpropose", "gc/cvote",
            "out/deploy", "out/execute", "out/callback",
            "dis/user_weights", "dis/minimum", "dis/claim_u1", "dis/claim_u3", "dis/receive",
            "tre/set_admin", "tre/asset_whitelist", "tre/nft_whitelist", "tre/spend", "tre/distribute", "tre/execute",
            "fac/update_config", "fac/finalize", "ver/admin", "ver/add", "ver/edit", "icsproxy/callback",
            "adm/ent", "adm/gov", "adm/gc", "adm/out", "adm/tre", "adm/dis", "adm/mem", "adm/cou"}

Entitled(x, m) ==
  CASE m \in {"mem/receive_stake", "mem/receive_add_stakes", "mem/receive_add_claims"} -> {"daotok"}
    [] m \in {"mem/receive_nft", "mem/receive_nft_claim"} -> {"nft"}
    [] m \in {"gc/weights_changed"} -> {"mem", "cou"}
    [] m \in {"gc/execute_actions"} -> IF Busy(x) THEN {"gc"} ELSE {}
    [] m \in {"gc/receive"} -> IF Kind(x) = "token" /\ Busy(x) THEN {"daotok"} ELSE {}
    [] m \in {"gc/cpropose", "gc/cvote"} -> IF Busy(x) THEN {"u3"} ELSE {}
    [] m \in {"gov/cast_vote", "gov/end_poll", "dis/receive", "tre/distribute"} /\ ~Busy(x) -> (IF m = "tre/distribute" /\ Kind(x) = "multisig" THEN {x.tadm} ELSE IF m = "dis/receive" /\ Kind(x) = "multisig" THEN {"tok"} ELSE {})
    [] m \in {"ent/finalize", "gc/deploy_initial", "out/execute", "out/callback", "fac/finalize"} -> {}
    [] m = "dis/claim_u1" -> {"u1"} [] m = "dis/claim_u3" -> {"u3"}
    [] m = "dis/receive" -> {"tok"}
    [] m \in {"tre/set_admin", "tre/asset_whitelist", "tre/nft_whitelist", "tre/spend", "tre/distribute", "tre/execute"} -> {x.tadm}
    [] m = "fac/update_config" -> {x.fadm}
    [] m \in {"ver/admin", "ver/add", "ver/edit"} -> {x.vadm}
    [] m = "icsproxy/callback" -> {"bridge"}
    [] m \in {"adm/ent", "adm/gov", "adm/gc", "adm/out", "adm/tre", "adm/dis", "adm/mem", "adm/cou"} -> {"ent"}
    [] OTHER -> {"gc"}

Heirs == {"u2", "gc2", "ent"}
Free(x, o) == o.m = "fac/finalize" /\ o.by = "fac"   (* its own internal step *)
Apply(x, o) ==
  IF Free(x, o) THEN [ok |-> "any", s |-> x]
  ELSE IF o.by \notin Entitled(x, o.m) THEN [ok |-> "n", s |-> x]
  ELSE [ok |-> "y", s |-> CASE o.m = "tre/set_admin" -> [x EXCEPT !.tadm = o.to]
                            [] o.m = "fac/update_config" -> [x EXCEPT !.fadm = o.to]
                            [] o.m = "ver/admin" -> [x EXCEPT !.vadm = o.to]
                            [] OTHER -> x]

VARIABLES s, act
vars == <<s, act>>
Init == /\ \E c \in 1..Len(Cfgs) : s = [c |-> c, t |-> 0, tadm |-> "gc", fadm |-> "facadmin", vadm |-> "veradmin"]
        /\ act = [o |-> [op |-> "init"], ok |-> "y"]
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in OpSet(s) : LET r == Apply(s, o) IN s' = r.s /\ act' = [o |-> o, ok |-> r.ok]

(* no caller of the other DAO, and no stranger, is ever entitled to anything of this DAO unless made its administrator *)
I_E05 == \A m \in Ops(Kind(s)) : \A p \in Parts : Other(p) \in Entitled(s, m) => Other(p) \in {s.tadm, s.fadm, s.vadm}

Obs1(x, k) == CASE k = "owners" -> [tre |-> x.tadm, fac |-> x.fadm, ver |-> x.vadm]
Pick(x, ks) == [k \in ks |-> Obs1(x, k)]
View == s
Key(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EmitState == PrintT(ToJson([S |-> Key(s), c |-> s.c, t |-> s.t, init |-> (act.o.op = "init"), obs |-> Pick(s, ObsKeys)]))
EmitEdge == PrintT(ToJson([E |-> Key(s), F |-> Key(s'), act |-> act'.o, ok |-> act'.ok]))
ASSUME PrintT(ToJson([C |-> Cfgs]))
=============================================================================
