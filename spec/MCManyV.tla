------------------------------ MODULE MCManyV ------------------------------
EXTENDS Props, Base
MUsers == {"u101", "u102", "u103", "u104", "u105", "u106", "u107", "u108", "u109", "u110", "u111", "u112", "u113", "u114", "u115", "u116", "u117", "u118", "u119", "u120", "u121", "u122", "u123", "u124", "u125", "u126", "u127", "u128", "u129", "u130", "u131", "u132", "u133", "u134", "u135", "u136", "u137", "u138", "u139", "u140", "u141", "u142", "u143", "u144", "u145", "u146", "u147", "u148", "u149", "u150", "u151", "u152", "u153", "u154", "u155", "u156", "u157", "u158", "u159", "u160", "u161", "u162", "u163", "u164", "u165", "u166", "u167", "u168", "u169", "u170", "u171", "u172", "u173", "u174", "u175", "u176", "u177", "u178", "u179", "u180", "u181", "u182", "u183", "u184", "u185", "u186", "u187", "u188", "u189", "u190", "u191", "u192", "u193", "u194", "u195", "u196", "u197", "u198", "u199", "u200", "u201", "u202", "u203", "u204", "u205"}
MAssets == {"cash"}
MRew == {"cash"}
U(i) == "u" \o ToString(100 + i)
Nm(i) == "t" \o ToString(100 + i)

(* more voters than fit on a page *)
N == 105
A == <<AMeta([name |-> "n1"])>>
MCfgs == << [Cfg0 EXCEPT !.kind = "multisig", !.members = [i \in 1..N |-> <<U(i), 1 + (i % 3)>>], !.bal = [cash |-> [u101 |-> 0]],
               !.setup = <<OPropose("u101", A), OPropose("u102", A)>> \o [i \in 1..N |-> OVote(U(i), 2, i % 4)] \o [i \in 1..55 |-> OVote(U(2 * i - 1 - (IF i > 50 THEN 53 ELSE 0)), 1, i % 2)]] >>
MOps(x) == {OVote("u150", 2, 0), OVote("u150", 1, 1), OEdit("gc", "mem", << <<"u150", 0>>, <<"u151", 7>> >>), OTick(2), OExec("u101", 2)}
=============================================================================
