------------------------------ MODULE MCBridge ------------------------------
(* packets, direct stakes and hostile callbacks before and after the collection is known *)
EXTENDS Bridge
MUsers == {"u1", "u2"}
Own == ("a" :> "icsproxy") @@ ("b" :> "icsproxy") @@ ("c" :> "u1") @@ ("x:a" :> "icsproxy") @@ ("x:c" :> "u2")
C == [Cfg0 EXCEPT !.kind = "ics721", !.bal = [cash |-> [u1 |-> 0]], !.nft = Own, !.ul = [k |-> "height", n |-> 2], !.dao2 = TRUE]
Learn(cl, co) == [op |-> "learn", class |-> cl, coll |-> co]
In(by, coll, ids, u, m, f) == [op |-> "icsin", by |-> by, coll |-> coll, ids |-> ids, user |-> u, to |-> m, form |-> f]
St(u, coll, id, v) == [op |-> "stakenft", by |-> u, id |-> id, for |-> v, coll |-> coll]
MCfgs == << C, [C EXCEPT !.setup = <<Learn("cls1", "nft")>>, !.ul = [k |-> "time", n |-> 1], !.gov = Gov(50, 50, -1, 1, -1, FALSE)],
            [C EXCEPT !.att = "terms", !.setup = <<Learn("cls1", "nft"), [op |-> "sign", by |-> "u1", c |-> "att"], [op |-> "sign", by |-> "u2", c |-> "att2"]>>] >>
MOps(x) ==
  {In("bridge", c, l, u, m, "stake") : c \in {"nft", "nftx"}, l \in {<<"a">>, <<"a", "b">>}, u \in MUsers, m \in Mems}
  \cup {In("bridge", "nft", l, "u1", "mem", "stake") : l \in {<<>>, <<"a", "a">>, <<"a", "c">>, <<"b">>}}
  \cup {In("bridge", "nft", <<"b">>, "u1", m, "stake") : m \in {"u2", "gc", "dis"}}
  \cup {In("bridge", "nft", <<"a">>, "u1", "mem", f) : f \in {"junk", "other", "noisy", "claim"}}
  \cup {In(b, "nft", <<"a">>, "u1", "mem", f) : b \in {"u1", "gc", "icsproxy", "nft", "mem", "creator"}, f \in {"stake", "junk"}}
  \cup {St("u1", "nft", "c", "u2"), St("u2", "nftx", "c", "u2"), [op |-> "fakenft", by |-> "bridge", for |-> "u1", id |-> "b"], [op |-> "fakenft", by |-> "icsproxy", for |-> "u1", id |-> "b"]}
  \cup {[op |-> "addclaimnft", by |-> "u1", for |-> "u2", id |-> "c", coll |-> "nft", rel |-> 1], [op |-> "addclaimnft", by |-> "u2", for |-> "u2", id |-> "c", coll |-> "nftx", rel |-> 1]}
  \cup {OUnstakeN("u1", l) : l \in {<<"a">>, <<"b">>, <<"a", "b">>}} \cup {OUnstakeN("u2", l) : l \in {<<"a">>, <<"c">>}}
  \cup {OClaim(u) : u \in MUsers}
  \cup (IF x.bridge["cls1"] = None THEN {Learn("cls1", "nft"), Learn("cls1", "nftx"), Learn("cls2", "nft")} ELSE {})
  \cup (IF \A m \in Mems : x.fix[m] # None THEN {Learn("cls1", "nft"), Learn("cls1", "nftx")} ELSE {})
  \cup (IF x.t < 2 THEN {OTick(x.t + 1)} ELSE {})
=============================================================================
