------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* The pure rules of an enterprise DAO: how a vote is decided and how      *)
(* far a decision is from changing.  Percentages are whole numbers, votes  *)
(* are given as <<yes, no, abstain, veto>>.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumF(_, _)
(* sum of f[x] over x in S *)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* shares: 1..100 are per cent, 1001..2000 are 0.1% .. 100% in steps of 0.1% *)
Den(q) == IF q > 1000 THEN 1000 ELSE 100
Num(q) == IF q > 1000 THEN q - 1000 ELSE q
IsShare(q) == Num(q) \in 1..Den(q)
QuorumReached(q, cast, avail) == avail > 0 /\ cast * Den(q) >= Num(q) * avail
Reaches(th, n, base) == base > 0 /\ n * Den(th) >= Num(th) * base

Cast(r) == r[1] + r[2] + r[3] + r[4]
NonAbstain(r) == r[1] + r[2] + r[4]

(* veto threshold -1 means: the ordinary threshold applies to vetoes *)
Verdict(q, th, ve, r, avail) ==
  LET base == NonAbstain(r)
      vt == IF ve < 0 THEN th ELSE ve
      yes == Reaches(th, r[1], base)
      no == Reaches(th, r[2], base)
  IN CASE ~QuorumReached(q, Cast(r), avail) -> "noquorum"
       [] QuorumReached(q, Cast(r), avail) /\ Reaches(vt, r[4], base) -> "veto"
       [] OTHER -> IF yes /\ no THEN (IF r[1] > r[2] THEN "passed" ELSE IF r[1] < r[2] THEN "no" ELSE "draw")
                   ELSE IF yes THEN "passed" ELSE IF no THEN "no" ELSE "nothreshold"

Decisive(v) == v \in {"passed", "no", "veto", "draw"}

(* what a vote must leave unchanged for the grace delay not to restart *)
Outlook(v, r) == IF Decisive(v) THEN <<v, IF v = "draw" THEN r[1] ELSE 0>> ELSE <<"open", 0>>

Grace(dur) == (dur + 9) \div 10

(* version triples, compared lexicographically *)
VerLt(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
VerLe(a, b) == a = b \/ VerLt(a, b)

NoDups(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Range(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
