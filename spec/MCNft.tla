------------------------------ MODULE MCNft ------------------------------
EXTENDS Props, Base
MUsers == {"u1", "u2"}
MAssets == {"cash"}
MRew == {"cash"}
(* NFT staking: ownership, double use, foreign collections, claims *)
C(uk, n) == [Cfg0 EXCEPT !.kind = "nft", !.bal = [cash |-> [u1 |-> 0]], !.nft = [a |-> "u1", b |-> "u1", c |-> "u2", d |-> "u2"],
                         !.gov = Gov(50, 50, -1, 1, -1, FALSE), !.ul = [k |-> uk, n |-> n], !.hist = TRUE]
MCfgs == << C("height", 2), [C("time", 2) EXCEPT !.half = TRUE, !.hist = FALSE, !.gov.dur = 2, !.setup = <<OStakeNft("u1", "a", "u1"), OStakeNft("u2", "c", "u1")>>],
            [C("time", 2) EXCEPT !.kind = "ics721", !.hist = FALSE] >>
X(u, id, v) == [op |-> "stakenft", by |-> u, id |-> id, for |-> v, coll |-> "nftx"]
MOps(x) ==
  {OStakeNft(u, i, v) : u \in {"u1"}, i \in {"a", "b", "c"}, v \in Users} \cup {OStakeNft("u2", i, "u2") : i \in {"a", "c", "d"}}
  \cup (IF ~Known(x) THEN {OLearn} ELSE {})
  \cup {[op |-> "fakenft", by |-> b, for |-> "u1", id |-> "b"] : b \in {"u1", "gc"}}
  \cup {OUnstakeN("u1", l) : l \in {<<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"a", "a">>, <<"a", "c">>, <<"d">>, <<"zz">>}} \cup {OUnstakeN("u2", l) : l \in {<<"c">>, <<"a">>, <<"c", "d">>}}
  \cup {OClaim(u) : u \in Users} \cup {OClaimFor("u1", "u2")}
  \cup {[op |-> "addclaimnft", by |-> "u2", for |-> "u1", id |-> "d", coll |-> "nft", rel |-> 2]}
  \cup (IF x.t < 4 THEN {OTick(x.t + 1)} ELSE {}) \cup (IF x.clm # <<>> /\ x.t < 3 THEN {OTick(x.t + 2)} ELSE {})
=============================================================================
