------------------------------ MODULE MCBatch ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2", "u3"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
(* stakes and claims added in batches (token DAOs) *)
B == [dao |-> [u1 |-> 5, u2 |-> 2], cash |-> [u1 |-> 2]]
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = B, !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> "height", n |-> 1], !.setup = <<OStake("u2", 1)>>]
MCfgs == << C("token"), [C("token") EXCEPT !.ws = "100000000000000000000", !.att = "text", !.setup = <<OSign("u2"), OStake("u2", 1)>>] >>
St(u, n, l) == [op |-> "addstakes", by |-> u, amt |-> n, list |-> l]
Cl(u, n, l) == [op |-> "addclaims", by |-> u, amt |-> n, list |-> l]
MOps(x) ==
  {St("u1", 2, << <<"u2", 1>>, <<"u3", 1>> >>), St("u1", 2, << <<"u2", 1>>, <<"u2", 1>> >>), St("u1", 1, << <<"u2", 1>>, <<"u3", 1>> >>),
   St("u1", 2, << <<"u2", 1>> >>), St("u1", 1, << <<"u2", 1>>, <<"u3", 0>> >>), St("u1", 3, << <<"u2", 3>> >>), St("u1", 1, << >>), St("u1", 1, << <<"u1", 1>> >>)}
  \cup {Cl("u1", 2, << <<"u2", 1, 1>>, <<"u3", 1, 2>> >>), Cl("u1", 2, << <<"u3", 1, 2>>, <<"u3", 1, 3>> >>), Cl("u1", 1, << <<"u2", 1, 1>>, <<"u3", 1, 2>> >>),
        Cl("u1", 2, << <<"u2", 1, 1>> >>), Cl("u2", 1, << <<"u2", 1, 0>> >>)}
  \cup {OUnstake(u, 1) : u \in {"u2", "u3"}} \cup {OClaim(u) : u \in {"u2", "u3"}}
  \cup (IF x.t < 3 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
