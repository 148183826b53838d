----------------------------- MODULE MCOutMany ------------------------------
(* treasuries on more chains than fit on a page *)
EXTENDS Outposts
K == 104
H(i) == "h" \o ToString(100 + i)
MChains == {H(i) : i \in 1..(K + 1)}
MChainSeq == [i \in 1..(K + 1) |-> H(i)]
RECURSIVE All(_)
All(i) == IF i = 0 THEN <<>> ELSE All(i - 1) \o <<XDeploy("gc", H(i), "g1", "A", <<>>), XReply("g1@A", 2 * i - 1, "p" \o ToString(i), "good", "terra"), XReply("g1@A", 2 * i, "t" \o ToString(i), "good", "terra")>>
C == [Cfg0 EXCEPT !.kind = "multisig", !.members = << <<"u1", 1>> >>, !.bal = [luna |-> [out |-> 3 * K], cash |-> [tre |-> 5]], !.gov = Gov(50, 50, -1, 2, -1, TRUE), !.white = <<"cash">>]
MCfgs == << [C EXCEPT !.setup = All(K)] >>
MOps(x) == {XDeploy("gc", H(i), "g1", "A", <<>>) : i \in {1, 31, 51, K, K + 1}} \cup {XExec("gc", H(i), "A", AFund("u2", << <<"cash", 1>> >>)) : i \in {1, 30, 51, 101, K, K + 1}}
           \cup {XReply("g1@A", i, "p9", "good", "terra") : i \in {1, 2, 2 * K, 2 * K + 1}}
=============================================================================
