------------------------------ MODULE MCLegMany ------------------------------
EXTENDS MCLegacy
(* more stakes and claims than one step takes *)
Digit(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1]
Nm(i) == Digit(i \div 100) \o Digit((i \div 10) % 10) \o Digit(i % 10)
W(i) == "w" \o Nm(i)
XUsers == {"u1", "u2", "u3"} \cup {W(i) : i \in 1..104}
XCfgs == << [T EXCEPT !.bal = [dao |-> [tre |-> 300], cash |-> [u3 |-> 6]], !.leg.st = << <<"u1", 2>>, <<"u2", 1>> >> \o [i \in 1..104 |-> <<W(i), 1 + (i % 2)>>],
                       !.leg.clm = <<Cl("u1", 1, <<>>, Tm(2)), Cl("u3", 2, <<>>, Ht(1))>> \o [i \in 1..104 |-> Cl(W(i), 1, <<>>, Tm(1))]],
            [N EXCEPT !.nft = [x \in {"n" \o Nm(i) : i \in 1..24} |-> "tre"] @@ [x \in {"m" \o Nm(i) : i \in 1..24} |-> "tre"],
                       !.leg.st = [i \in 1..24 |-> <<"n" \o Nm(i), IF i % 3 = 0 THEN "u1" ELSE "u2">>],
                       !.leg.clm = [i \in 1..11 |-> Cl("u1", 0, <<"m" \o Nm(i)>>, Tm(1))] \o <<Cl("u2", 0, [i \in 1..10 |-> "m" \o Nm(11 + i)], Ht(2)), Cl("u3", 0, <<"m022", "m023">>, Tm(1)), Cl("w003", 0, <<"m024">>, Tm(1))>>] >>
XOps(x) == {OMig("u1", -1), OMig("u2", 1), OMig("u3", 103), OMig("u1", 19)} \cup (IF x.t < 1 THEN {OTick(x.t + 2)} ELSE {}) \cup {OClaim("u1"), OClaim("w003")}
=============================================================================
