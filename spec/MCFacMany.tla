----------------------------- MODULE MCFacMany ------------------------------
(* sequences of creations and failures; all DAOs then live side by side *)
EXTENDS FacReq
MUsers == {"u1", "u2"}
Full == [New20(<< <<"u1", 5>>, <<"u2", 7>> >>) EXCEPT !.daobal = 3, !.council = Council(<<"u1", "u2">>, 40, 60, <<"update_metadata">>), !.minw = 2, !.white = <<"cash", "tok">>, !.nftw = <<"nft">>, !.att = "terms"]
Mu == [R0 EXCEPT !.council = Council(<<"u2">>, 30, 70, <<"default">>), !.cross = <<Cross("chn1", "A")>>]
MCfgs == << C0, [C0 EXCEPT !.versions = <<>>] >>
Reqs == {R0, Mu, Full, Denom, Imp3("cw3a"), Tok("daotok"), [Denom EXCEPT !.name = "X", !.minw = 3], Nft("nft"), New721}
Bad == {[R0 EXCEPT !.members = <<>>], [Full EXCEPT !.daobal = 0], Tok("nft"), [Mu EXCEPT !.cross = <<Cross("chn1", "A"), Cross("chn1", "B"), Cross("chn2", "A")>>]}
MOps(x) ==
  LET n == Len(x.daos) IN
  (IF n < 3 THEN {New(r) : r \in Reqs \cup Bad} ELSE {})
  \cup {Ask(R0, <<1, 2, 1>>), Ask(Denom, <<1, 3, 0>>), Ask(R0, <<1, 2, 2>>)}
  \cup {[op |-> "relver", v |-> v, set |-> 3] : v \in {<<1, 2, 5>>, <<2, 0, 0>>}}
  \cup {[op |-> "fminw", i |-> i, d |-> j, w |-> 2] : i \in 1..n, j \in 1..n}
  \cup {[op |-> "fdist", i |-> i, n |-> 60] : i \in {i \in 1..n : Even(x.daos[i], 60)}}
  \cup {[op |-> "fstake", i |-> i, by |-> u] : i \in {i \in 1..n : Type(x.daos[i].r) # "nft"}, u \in {"u1"}}
  \cup {[op |-> "fprop", i |-> i, by |-> u] : i \in 1..n, u \in {"u1"}}
  \cup {[op |-> "fsign", i |-> i, by |-> "u1"] : i \in {i \in 1..n : x.daos[i].r.att # ""}}
  \cup (IF n = 1 /\ x.t = 0 THEN {OTick(1)} ELSE {})
=============================================================================
