------------------------------ MODULE MCStake ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* staking, unstaking and claims for denom and token DAOs with block and time periods *)
B == [dao |-> [u1 |-> 3, u2 |-> 1], cash |-> [u1 |-> 2]]
C(k, ws, uk, n) == [Cfg0 EXCEPT !.kind = k, !.ws = ws, !.bal = B, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> uk, n |-> n], !.hist = TRUE]
MCfgs == << C("denom", "1", "height", 2), C("token", "1", "time", 1), [C("denom", "100000000000000000000", "time", 2) EXCEPT !.half = TRUE, !.hist = FALSE, !.gov.dur = 2],
            [C("token", "1000000", "height", 0) EXCEPT !.setup = <<OStake("u1", 2)>>] >>
MOps(x) ==
  {OStakeFor("u1", f, n, "dao") : f \in {"self", "u2"}, n \in {0, 1, 2}}
  \cup {OStakeFor("u1", "u1", 1, "cash"), OStakeFor("u2", "u2", 1, "dao"), OStakeFor("u2", "u1", 2, "dao")}
  \cup (IF Kind(x) = "denom" THEN {[op |-> "stakemulti", by |-> "u1", amt |-> 1]}
        ELSE {[op |-> "fake20", by |-> b, for |-> "u1", amt |-> 1] : b \in {"u1", "gc", "cashtok"}})
  \cup {OUnstake(u, n) : u \in Users, n \in {0, 1, 2}}
  \cup {OClaim(u) : u \in Users} \cup {OClaimFor("u1", "u2"), OClaimFor("u2", "u2")}
  \cup {[op |-> "unlock", by |-> b, ul |-> [k |-> "time", n |-> IF Cfg(x).half THEN 4 ELSE 1]] : b \in {"gc", "u1"}}
  \cup (IF x.t < 4 THEN {OTick(x.t + 1)} ELSE {}) \cup (IF x.clm # <<>> /\ x.t < 3 THEN {OTick(x.t + 2)} ELSE {})
=============================================================================
