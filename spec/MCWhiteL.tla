------------------------------ MODULE MCWhiteL ------------------------------
EXTENDS Props, Base
MUsers == {"u1"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
Name(n) == "a" \o ToString(n)
Long(k, n) == [i \in 1..n |-> k \o ToString(100 + i)]

(* whitelists longer than a page *)
C(w, n) == [Cfg0 EXCEPT !.bal = [dao |-> [u1 |-> 4], cash |-> [u1 |-> 2]], !.white = w, !.nftw = n]
MCfgs == << C(Long("b", 35) \o Long("cw", 70), Long("n", 105)), C(Long("b", 30) \o Long("cw", 1), Long("n", 30)), C(Long("b", 100) \o Long("cw", 3), Long("n", 100)),
            C(Long("b", 29) \o Long("cw", 2), Long("n", 31)), C(Long("b", 105), <<>>), C(Long("cw", 105), <<>>), C(<<"cash">>, <<>>) >>
W(b, a, r) == [op |-> "white", by |-> b, add |-> a, rem |-> r]
Nw(b, a, r) == [op |-> "nftw", by |-> b, add |-> a, rem |-> r]
MOps(x) ==
  {W("gc", a, r) : a \in {<<>>, Long("c", 40), Long("cwx", 35)}, r \in {<<>>, Long("b", 20), <<"cw101">>}} \cup {Nw("gc", a, r) : a \in {<<>>, Long("o", 33)}, r \in {<<>>, Long("n", 5)}}
=============================================================================
