------------------------------ MODULE MCFacReq ------------------------------
(* one request: every kind of membership, every option, valid and not *)
EXTENDS FacReq
MUsers == {"u1", "u2", "u3"}
MCfgs == << C0 >>
L == << <<"u1", 5>>, <<"u2", 7>> >>
G(q, thr, veto, dur, md, e) == Gov(q, thr, veto, dur, md, e)
Kinds == {R0, Denom, Tok("daotok"), New20(L), Nft("nft"), New721, Ics, Imp3("cw3a")}
Govs == {G(1, 1, -1, 1, -1, TRUE), G(100, 100, 100, 2, -1, FALSE), G(33, 66, 25, 2, 4, TRUE), G(50, 50, -1, 3, -1, FALSE), G(50, 50, -1, 0, -1, FALSE), G(0, 50, -1, 2, -1, FALSE),
         G(101, 50, -1, 2, -1, FALSE), G(50, 0, -1, 2, -1, FALSE), G(50, 101, -1, 2, -1, FALSE), G(50, 50, 0, 2, -1, FALSE), G(50, 50, 101, 2, -1, FALSE), G(50, 50, 100, 2, 0, FALSE)}
Councils == {Council(<<"u1">>, 50, 50, <<"default">>), Council(<<"u2", "u3">>, 100, 1, <<"upgrade_dao", "update_metadata">>), Council(<<"u1", "u1">>, 50, 50, <<"default">>),
             Council(<<"u1">>, 0, 50, <<"default">>), Council(<<"u1">>, 50, 101, <<"default">>), Council(<<"u1">>, 50, 50, <<"update_gov_config">>),
             Council(<<"u1">>, 50, 50, <<"upgrade_dao", "request_funding_from_dao">>), Council(<<>>, 50, 50, <<>>),
             Council(<<"u1", "u2", "u3">>, 50, 50, <<"update_asset_whitelist", "update_nft_whitelist", "deploy_cross_chain_treasury">>)}
Uls == {[k |-> "height", n |-> 0], [k |-> "height", n |-> 1], [k |-> "time", n |-> 1], [k |-> "time", n |-> 2], [k |-> "time", n |-> 3]}
Reqs ==
  {[r EXCEPT !.gov = g] : r \in Kinds, g \in Govs}
  \cup {[r EXCEPT !.council = c] : r \in {R0, Denom, Imp3("cw3a"), New20(L)}, c \in Councils}
  \cup {[r EXCEPT !.ul = u] : r \in Kinds, u \in Uls}
  \cup {[r EXCEPT !.minw = w] : r \in Kinds, w \in {0, 1, 5}}
  \cup {[r EXCEPT !.white = w, !.nftw = n] : r \in {R0, Denom, New20(L), New721}, w \in {<<"cash">>, <<"tok", "cash", "gold">>, <<"cash", "cash">>}, n \in {<<>>, <<"nft", "nftx">>}}
  \cup {[r EXCEPT !.att = "terms", !.cross = x] : r \in Kinds, x \in {<<>>, <<Cross("chn1", "A")>>, <<Cross("chn1", "A"), Cross("chn2", "B")>>, <<Cross("chn1", "A"), Cross("chn1", "B"), Cross("chn2", "A")>>}}
  \cup {[R0 EXCEPT !.members = m] : m \in {<<>>, << <<"u1", 1>> >>, << <<"u1", 1>>, <<"u1", 2>> >>, << <<"u1", 1>>, <<"u2", 0>> >>, << <<"u3", 7>>, <<"u2", 1>>, <<"u1", 4>> >>}}
  \cup {Imp3(t) : t \in {"cw3a", "cw3m", "cw3z", "cw3e", "cw3b", "nft", "u1"}}
  \cup {Tok(t) : t \in {"tok", "tokz", "tokm", "nft", "u1", "bridge"}} \cup {Nft(t) : t \in {"nftx", "tok", "u1"}}
  \cup {[New20(l) EXCEPT !.daobal = b, !.mint = m, !.mkt = k] : l \in {<<>>, L, << <<"u1", 0>>, <<"u2", 3>> >>, << <<"u1", 1>>, <<"u1", 3>> >>, << <<"u3", 9>> >>}, b \in {-1, 0, 4}, m \in {None, "u2"}, k \in {None, "u3"}}
  \cup {[New721 EXCEPT !.mint = "u2"]}
MOps(x) ==
  LET n == Len(x.daos) IN
  IF n = 0 THEN {New(r) : r \in Reqs}
  ELSE (IF Even(x.daos[1], 240) THEN {[op |-> "fdist", i |-> 1, n |-> 240]} ELSE {}) \cup {[op |-> "fprop", i |-> 1, by |-> u] : u \in IF x.daos[1].r.gov.mindep = -1 THEN MUsers ELSE {}}
       \cup {[op |-> "fstake", i |-> 1, by |-> u] : u \in IF Type(x.daos[1].r) = "nft" THEN {} ELSE {"u1", "u2"}} \cup {[op |-> "fminw", i |-> 1, d |-> 1, w |-> 2]}
=============================================================================
