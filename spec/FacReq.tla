------------------------------- MODULE FacReq -------------------------------
(* building blocks for creation requests *)
EXTENDS Factory
R0 == [name |-> "A", kind |-> "multisig", ul |-> [k |-> "height", n |-> 2], gov |-> Gov(50, 50, -1, 2, -1, FALSE), council |-> NoCouncil,
       members |-> << <<"u1", 1>>, <<"u2", 2>> >>, tok |-> "", daobal |-> -1, mint |-> None, mkt |-> None,
       white |-> <<>>, nftw |-> <<>>, minw |-> -1, att |-> "", cross |-> <<>>]
(* rewards of n are shared without remainder *)
Even(d, n) == EffTotal(d) = 0 \/ n % EffTotal(d) = 0
Ask(r, v) == [op |-> "create", by |-> "creator", r |-> r, v |-> v]
New(r) == Ask(r, <<>>)
Denom == [R0 EXCEPT !.name = "D", !.kind = "denom", !.members = <<>>]
Tok(t) == [R0 EXCEPT !.name = "T", !.kind = "token", !.tok = t, !.members = <<>>]
New20(l) == [R0 EXCEPT !.name = "N", !.kind = "new20", !.members = l]
Nft(t) == [R0 EXCEPT !.name = "F", !.kind = "nft", !.tok = t, !.members = <<>>]
New721 == [R0 EXCEPT !.name = "M", !.kind = "new721", !.members = <<>>]
Ics == [R0 EXCEPT !.name = "I", !.kind = "ics721", !.members = <<>>]
Imp3(t) == [R0 EXCEPT !.name = "G", !.kind = "imp3", !.tok = t, !.members = <<>>]
Cross(h, c) == [chain |-> h, gp |-> "g1", chan |-> c, white |-> <<>>]
C0 == [Cfg0 EXCEPT !.kind = "none", !.bal = [luna |-> [fac |-> 2], cash |-> [u1 |-> 1000], dao |-> [u1 |-> 50, u2 |-> 50]], !.gwhite = <<"cash">>, !.gnftw = <<"nftx">>,
                   !.versions = << << <<1, 2, 1>>, 1>>, << <<1, 3, 0>>, 2>> >>]
=============================================================================
