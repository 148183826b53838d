------------------------------ MODULE MCPaging ------------------------------
EXTENDS Props, Base
MUsers == {"u101", "u102", "u103", "u104", "u105", "u106", "u107", "u108", "u109", "u110", "u111", "u112", "u113", "u114", "u115", "u116", "u117", "u118", "u119", "u120", "u121", "u122", "u123", "u124", "u125", "u126", "u127", "u128", "u129", "u130", "u131", "u132", "u133", "u134", "u135", "u136", "u137", "u138", "u139", "u140", "u141", "u142", "u143", "u144", "u145", "u146", "u147", "u148", "u149", "u150", "u151", "u152", "u153", "u154", "u155", "u156", "u157", "u158", "u159", "u160", "u161", "u162", "u163", "u164", "u165", "u166", "u167", "u168", "u169", "u170", "u171", "u172", "u173", "u174", "u175", "u176", "u177", "u178", "u179", "u180", "u181", "u182", "u183", "u184", "u185", "u186", "u187", "u188", "u189", "u190", "u191", "u192", "u193", "u194", "u195", "u196", "u197", "u198", "u199", "u200", "u201", "u202", "u203", "u204", "u205"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
U(i) == "u" \o ToString(100 + i)
Nm(i) == "t" \o ToString(100 + i)

(* more members and staked tokens than fit on a page *)
N == 105
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = [dao |-> [u101 |-> 300], cash |-> [u101 |-> 0]]]
All == [i \in 1..N |-> <<U(i), 1 + (i % 3)>>]
RECURSIVE SumL(_)
SumL(l) == IF l = <<>> THEN 0 ELSE Head(l)[2] + SumL(Tail(l))
Toks == {Nm(i) : i \in 1..N}
MCfgs == << [C("multisig") EXCEPT !.members = All, !.council = Council([i \in 1..(N - 1) |-> U(i)], 50, 50, <<"default">>), !.bal = [cash |-> [u101 |-> 0]]],
            [C("token") EXCEPT !.setup = <<[op |-> "addstakes", by |-> "u101", amt |-> SumL(All), list |-> All]>>],
            [C("denom") EXCEPT !.setup = [i \in 1..N |-> OStakeFor("u101", U(i), 1 + (i % 3), "dao")]] >>
MOps(x) ==
  CASE Kind(x) = "multisig" -> {OEdit("gc", "mem", << <<"u150", 0>>, <<"u151", 7>> >>), OSet("gc", "mem", [i \in 1..60 |-> <<U(i), 2>>]), OSet("gc", "cou", [i \in 1..60 |-> <<U(2 * i - (IF i > 52 THEN 105 ELSE 0)), 2>>]), OEdit("gc", "cou", [i \in 1..40 |-> <<U(i), 0>>])}
    [] IsNft(x) -> {OUnstakeN("u102", <<"t102">>), OUnstakeN("u102", [i \in 1..55 |-> Nm(i)]), OUnstakeN("u150", <<"t150">>)}
    [] OTHER -> {OUnstake("u150", 1), OUnstake("u105", 3), OStakeFor("u101", "u204", 1, "dao")}
=============================================================================
