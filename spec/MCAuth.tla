------------------------------- MODULE MCAuth -------------------------------
(* every reserved operation from every caller, for each kind of DAO, before and after administrators change *)
EXTENDS Auth
B == [dao |-> [u1 |-> 4, u2 |-> 2], cash |-> [tre |-> 5, dis |-> 0], luna |-> [out |-> 9]]
C(k) == [Cfg0 EXCEPT !.kind = k, !.bal = B, !.dao2 = TRUE, !.white = <<"cash", "tok">>, !.council = Council(<<"u3">>, 50, 50, <<"update_metadata">>),
          !.att = "text", !.versions = << << <<1, 2, 1>>, 1>>, << <<1, 3, 0>>, 2>> >>, !.start = 1,
          !.setup = <<OSign("u1"), OSign("u3"), OSign("u2"), OStake("u1", 2), OTick(0), OPropose("u1", <<AMeta([name |-> "new"])>>), OVote("u1", 1, 0),
                      OCPropose("u3", <<AMeta([name |-> "new"])>>)>>]
N == [C("nft") EXCEPT !.bal = [cash |-> [tre |-> 5], luna |-> [out |-> 9]], !.nft = [a |-> "u1", b |-> "u1"],
       !.setup = [C("nft").setup EXCEPT ![4] = OStakeNft("u1", "a", "u1")]]
M == [C("multisig") EXCEPT !.bal = [cash |-> [tre |-> 5], luna |-> [out |-> 9]], !.members = << <<"u1", 2>>, <<"u2", 1>> >>,
       !.setup = [C("multisig").setup EXCEPT ![4] = OTick(0)]]
(* no attestation, no council, nothing staked or proposed yet *)
Bare(c) == [c EXCEPT !.att = "", !.council = NoCouncil, !.setup = <<>>]
MCfgs == << C("denom"), C("token"), N, M, Bare(C("denom")), Bare(C("token")), Bare(N), Bare(M) >>
P(by, m, to) == [op |-> "priv", by |-> by, m |-> m, to |-> to]
MOps(x) == {P(by, m, "u2") : by \in Callers, m \in Ops(Kind(x))}
           \cup {P(by, m, to) : by \in {x.tadm, x.fadm, x.vadm}, m \in {"tre/set_admin", "fac/update_config", "ver/admin"}, to \in Heirs}
=============================================================================
