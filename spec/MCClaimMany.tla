------------------------------ MODULE MCClaimMany ------------------------------
EXTENDS Props, Base
(* more claims of one user than fit on any page, released at different moments *)
MUsers == {"u1", "u2"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
K == 36
Nm(i) == "t" \o ToString(100 + i)
C(k) == [Cfg0 EXCEPT !.kind = k, !.ul = [k |-> "time", n |-> 3], !.bal = [dao |-> [u1 |-> 120, u2 |-> 20], cash |-> [u1 |-> 0]]]
RECURSIVE Uns(_)
Uns(i) == IF i = 0 THEN <<>> ELSE Uns(i - 1) \o <<OUnstake("u1", 1 + (i % 3))>> \o (IF i % 12 = 0 THEN <<OTick(i \div 12), OUnstake("u2", 2)>> ELSE <<>>)
RECURSIVE UnsN(_)
UnsN(i) == IF i = 0 THEN <<>> ELSE UnsN(i - 1) \o <<OUnstakeN("u1", <<Nm(i)>>)>> \o (IF i % 12 = 0 THEN <<OTick(i \div 12)>> ELSE <<>>)
RECURSIVE Toks(_)
Toks(i) == IF i = 0 THEN [z |-> "u2"] ELSE Toks(i - 1) @@ (Nm(i) :> "u1")
MCfgs == << [C("denom") EXCEPT !.setup = <<OStake("u1", 100), OStake("u2", 20)>> \o Uns(K)],
            [C("token") EXCEPT !.setup = <<OStake("u1", 100), OStake("u2", 20)>> \o Uns(K), !.ul = [k |-> "height", n |-> 3]],
            [C("nft") EXCEPT !.bal = [cash |-> [u1 |-> 0]], !.nft = Toks(K + 2), !.setup = [i \in 1..(K + 2) |-> OStakeNft("u1", Nm(i), "u1")] \o <<OStakeNft("u2", "z", "u2")>> \o UnsN(K)] >>
MOps(x) == {OClaim("u1"), OClaim("u2"), OTick(x.t + 1)}
   \cup (IF IsNft(x) THEN {OUnstakeN("u1", <<Nm(37), Nm(38)>>), OUnstakeN("u2", <<"z">>)} ELSE {OUnstake("u1", 5), OUnstake("u1", 3), OUnstake("u2", 14), [op |-> "unlock", by |-> "gc", ul |-> [k |-> "height", n |-> 1]]})
=============================================================================
