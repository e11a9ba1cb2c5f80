------------------------------- MODULE ClosRand -------------------------------
(***************************************************************************)
(* Long random closure histories.  The walk keeps the set of live closures *)
(* and only asks for what Closures allows in that state.  It alternates    *)
(* between growing towards Peak live closures and shrinking to a few, so   *)
(* that executable tables and heap segments come and go.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt

CONSTANTS NHist, Len1, Peak, Half, NOwn, NProc, Faulty, Sizes, Kinds3
VARIABLES n, h
R(S) == RandomElement(S)
JavaSigs == {0, 1, 4, 5, 6}
Size(k) == LET x == R(1..20) IN IF Sizes = "small" THEN R({88, 96, 100, 120, 88, 88})
                             ELSE IF x <= 12 THEN R(88..160) ELSE IF x <= 17 THEN R(88..3000) ELSE R({4000, 4096, 8192, 20000, 70000})
PrepOp(p, i, owner) ==
  LET k == R(IF Kinds3 /\ owner # "two" THEN 0..3 ELSE 0..2)
      s == IF k = 2 THEN R(JavaSigs) ELSE R(0..6)
  IN [o |-> "p", p |-> p, v |-> <<i, k, s, R(0..2), R(1..1000000)>>]
\* state of one process: live allocated ids, own ids
Start == [ops |-> <<>>, w |-> [p \in 0..(NProc - 1) |-> [up |-> p = 0, live |-> {}, own |-> {}]]]
\* memory shared between processes is not a copy: only private memory then
OwnIds == {2000 + k * (IF NProc > 1 THEN 4 ELSE 1) : k \in 0..(NOwn - 1)}
Fault(k) == LET x == R(1..6) IN
  [o |-> "x", p |-> 0, v |-> <<IF x <= 4 THEN R(0..20) ELSE 999, IF x = 2 THEN R(0..30) ELSE 999, IF x = 5 THEN R(0..8) ELSE 999,
                               R({"-", "p", "a", "s"})>>]
Step(a, k) ==
  LET ups == {p \in DOMAIN a.w : a.w[p].up}
      p == R(ups)
      q == a.w[p]
      grow == (k \div Half) % 2 = 0
      x == R(1..100)
      add(ops, r) == [ops |-> a.ops \o ops, w |-> [a.w EXCEPT ![p] = r]]
      all == q.live \cup q.own
      sees == {i \in q.own : i % 2 = 0}
  IN IF NProc > 1 /\ x <= 3 /\ \E r \in DOMAIN a.w : ~a.w[r].up
     THEN LET r == CHOOSE r \in DOMAIN a.w : ~a.w[r].up /\ \A z \in DOMAIN a.w : z < r => a.w[z].up
          IN [ops |-> Append(a.ops, [o |-> "k", p |-> p, v |-> <<r>>]), w |-> [a.w EXCEPT ![r] = q]]
     ELSE IF x <= (IF grow THEN 55 ELSE 12) /\ Cardinality(q.live) < Peak
     THEN LET i == R((0..(Peak - 1)) \ q.live)
              alloc == <<[o |-> "a", p |-> p, v |-> <<i, Size(k)>>]>>
          IN IF Faulty /\ R(1..2) = 1
             \* what fails may stay away; the next attempt has no obstacle
             THEN add(<<[Fault(k) EXCEPT !.p = p]>> \o alloc \o <<[o |-> "A", p |-> p, v |-> <<i, Size(k)>>], PrepOp(p, i, "a")>>, [q EXCEPT !.live = @ \cup {i}])
             ELSE add(alloc \o (IF R(1..12) = 1 THEN <<>> ELSE <<PrepOp(p, i, "a")>>), [q EXCEPT !.live = @ \cup {i}])
     ELSE IF x <= (IF grow THEN 62 ELSE 70) /\ q.live # {}
     THEN LET i == R(q.live) IN add(<<[o |-> "f", p |-> p, v |-> <<i>>]>>, [q EXCEPT !.live = @ \ {i}])
     ELSE IF x <= 78 /\ q.live # {} THEN add(<<PrepOp(p, R(q.live), "a")>>, q)
     ELSE IF x <= 84 /\ q.live # {} THEN add(<<[o |-> "m", p |-> p, v |-> <<R(q.live)>>]>>, q)
     ELSE IF x <= 90 /\ NOwn > 0
     THEN LET i == R(OwnIds) IN
          IF i \in q.own /\ R(1..2) = 1 THEN add(<<[o |-> "r", p |-> p, v |-> <<i>>]>>, [q EXCEPT !.own = @ \ {i}])
          ELSE IF i \in q.own THEN add(<<PrepOp(p, i, IF i % 4 = 0 THEN "one" ELSE "two")>>, q)
          ELSE add(<<[o |-> "o", p |-> p, v |-> <<i, i % 4>>], PrepOp(p, i, IF i % 4 = 0 THEN "one" ELSE "two")>>, [q EXCEPT !.own = @ \cup {i}])
     ELSE IF all # {} THEN add(<<[o |-> "c", p |-> p, v |-> <<R(all)>>]>>, q) ELSE a
\* at the end everything goes
Finish(a) ==
  LET one(acc, p) == IF ~a.w[p].up THEN acc
        ELSE acc \o <<[o |-> "q", p |-> p, v |-> <<>>]>>
             \o [k \in 1..Cardinality(a.w[p].live) |-> [o |-> "f", p |-> p, v |-> <<SetToSeq(a.w[p].live)[k]>>]]
             \o <<[o |-> "q", p |-> p, v |-> <<>>]>>
  IN FoldLeft(one, a.ops, [k \in 1..NProc |-> k - 1])
History(z) == Finish(FoldLeft(Step, Start, [k \in 1..Len1 |-> k + z - z]))
Init == n = 0 /\ h = <<>>
Next == n < NHist /\ n' = n + 1 /\ h' = History(n)
Spec == Init /\ [][Next]_<<n, h>>
Emit == n = 0 \/ PrintT("H " \o ToJson(h))
===============================================================================
