------------------------------ MODULE MCMeta ------------------------------
EXTENDS Props, Base
MUsers == {"u1"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* metadata and configuration *)
C == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.bal = [dao |-> [u1 |-> 1], cash |-> [u1 |-> 0]], !.att = "text"]
MCfgs == << C, [C EXCEPT !.kind = "denom", !.members = <<>>, !.att = ""], [C EXCEPT !.kind = "token", !.members = <<>>], [C EXCEPT !.kind = "nft", !.members = <<>>] >>
M(b, f) == [op |-> "meta", by |-> b, f |-> f]
E(b, f) == [op |-> "entcfg", by |-> b, f |-> f]
Fs == { [name |-> "n1"], [desc |-> "d1"], [desc |-> "none"], [logo |-> "l1"], [logo |-> "none"], [gh |-> "g1"], [gh |-> "none"], [dc |-> "c1"], [dc |-> "none"], [tw |-> "t1"], [tw |-> "none"],
        [tg |-> "e1"], [tg |-> "none"], [name |-> "n2", tg |-> "e2"], [gh |-> "g3", tw |-> "none", desc |-> "d3"], [name |-> "n4", desc |-> "d4", logo |-> "l4", gh |-> "g4", dc |-> "c4", tw |-> "t4", tg |-> "e4"] }
MOps(x) ==
  {M("gc", f) : f \in Fs} \cup {M(b, [name |-> "x"]) : b \in {"u1", "ent", "gov", "tre", "mem", "creator"}}
  \cup {E("gc", f) : f \in {[ver |-> "ver2"], [fac |-> "fac2"], [ver |-> "ver3", fac |-> "fac3"]}} \cup {E(b, [ver |-> "ver2"]) : b \in {"u1", "ent", "fac", "ver"}}
  \cup (IF x.ecfg.ver = "ver" THEN {OSetAtt("gc", "text2")} ELSE {}) \cup {ORmAtt("gc"), OSetAtt("u1", "text3"), ORmAtt("u1")}
=============================================================================
