------------------------------ MODULE MCWhite ------------------------------
EXTENDS Props, Base
MUsers == {"u1"}
MAssets == {"dao", "cash"}
MRew == {"cash"}
Name(n) == "a" \o ToString(n)
Long(k, n) == [i \in 1..n |-> k \o ToString(100 + i)]

(* the whitelists *)
C(w, n) == [Cfg0 EXCEPT !.bal = [dao |-> [u1 |-> 4], cash |-> [u1 |-> 2]], !.white = w, !.nftw = n]
MCfgs == << C(<<>>, <<>>), C(<<"cash", "tok", "gold">>, <<"nft">>), C(<<"cash", "cash">>, <<"nft", "nft">>) >>
W(b, a, r) == [op |-> "white", by |-> b, add |-> a, rem |-> r]
Nw(b, a, r) == [op |-> "nftw", by |-> b, add |-> a, rem |-> r]
MOps(x) ==
  {W("gc", a, r) : a \in {<<>>, <<"cash">>, <<"tok", "gold">>, <<"gold", "gold">>, <<"tokb", "iron">>}, r \in {<<>>, <<"cash">>, <<"tok">>, <<"gold", "tokb">>, <<"iron", "iron">>}}
  \cup {Nw("gc", a, r) : a \in {<<>>, <<"nft">>, <<"nftx", "nft">>}, r \in {<<>>, <<"nft">>, <<"nftx">>}}
  \cup {W(b, <<"iron">>, <<"cash">>) : b \in {"u1", "ent", "gov", "dis"}} \cup {Nw(b, <<"nftx">>, <<"nft">>) : b \in {"u1", "ent"}}
  \cup {W("gc", <<"m1155_a">>, <<>>), W("gc", <<"iron", "m1155_a">>, <<"cash">>), W("gc", <<>>, <<"m1155_a">>)}
=============================================================================
