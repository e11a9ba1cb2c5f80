-------------------------------- MODULE CallMore --------------------------------
(***************************************************************************)
(* Further scripts: every pair of routes nested in one another and left in *)
(* every way and then used again; deep recursion through one and the same  *)
(* interface or closure, abandoned or not; long random scripts.            *)
(***************************************************************************)
EXTENDS CallStack, TLC, Json, Randomization
CONSTANTS NRand, Len1, Depths, Deep, AllSigs
VARIABLES n, s
R(S) == RandomElement(S)
SigR(r) == R(Sigs(r))
\* outer, inner, way of leaving the inner one
Ways == {"R", "J0", "J1", "T0", "T1"}
Pair(a, b, w, sa, sb) ==
  LET f0 == IF w = "J0" THEN 1 ELSE IF w = "T0" THEN 2 ELSE 0
      f1 == IF w = "J1" THEN 1 ELSE IF w = "T1" THEN 2 ELSE 0
      enter == <<Ent(a, sa, 1, f1), Ent(b, sb, 0, 0)>>
      leave == CASE w = "R" -> <<Ret, Ent(b, sb, 1, 0), Ret, Ret>>
                 [] w = "J0" -> <<Jump(0)>>
                 [] w = "J1" -> <<Jump(1), Ent(b, sb, 1, 0), Jump(1), Ret>>
                 [] w = "T0" -> <<Throw(0)>>
                 [] w = "T1" -> <<Throw(1), Ent(b, sb, 1, 0), Throw(1), Ret>>
  IN [f |-> f0, s |-> enter \o leave \o enter \o leave \o <<Ent(a, sa, 0, 0), Ret, Ent(b, sb, 0, 0), Ret>>]
PairOk(a, b, w) == (w \in {"T0", "T1"} => Unwinds(b)) /\ (w = "T0" => Unwinds(a))
Pairs == { x \in Routes \X Routes \X Ways : PairOk(x[1], x[2], x[3]) }
\* the same route d levels deep, then left in a way
Deeply(r, d, w, sg) ==
  LET f0 == IF w = "J0" THEN 1 ELSE IF w = "T0" THEN 2 ELSE 0
      down == [k \in 1..d |-> Ent(r, sg, k % 2, 0)]
      leave == CASE w = "R" -> [k \in 1..d |-> Ret] [] w = "J0" -> <<Jump(0)>> [] w = "T0" -> <<Throw(0)>>
  IN [f |-> f0, s |-> down \o leave \o down \o leave \o <<Ent(r, sg, 0, 0), Ret>>]
Deeps == { x \in Routes \X {"R", "J0", "T0"} : x[2] = "T0" => Unwinds(x[1]) }
\* random
RStep(a, k) ==
  LET st == a.st
      x == R(1..100)
      d == Len(st)
      js == {j \in 0..(d - 1) : st[j + 1].f = 1}
      ts == {j \in 0..(d - 1) : Can(st, Throw(j))}
      deepen == IF (k \div 60) % 2 = 0 THEN 60 ELSE 35
      go(op) == [st |-> Step(st, op), s |-> Append(a.s, op)]
  IN IF d < 60 /\ (x <= deepen \/ d = 1) THEN LET r == R(IF R(1..3) = 1 THEN Ms ELSE Routes \ Ms) IN go(Ent(r, SigR(r), R(0..1), R(0..2)))
     ELSE IF x <= 90 THEN go(Ret)
     ELSE IF x <= 95 /\ js # {} THEN go(Jump(R(js)))
     ELSE IF ts # {} THEN go(Throw(R(ts)))
     ELSE go(Ret)
Random(z) ==
  LET f == R(1..2)
      a == FoldLeft(RStep, [st |-> <<[r |-> 0, f |-> f]>>, s |-> <<>>], [k \in 1..Len1 |-> k + z - z])
  IN [f |-> f, s |-> a.s \o [k \in 1..(Len(a.st) - 1) |-> Ret]]
Seqs == SetToSeq(Pairs)
Dps == SetToSeq(Deeps)
NP == IF AllSigs THEN Len(Seqs) * 5 ELSE Len(Seqs)
ND == Len(Dps) * Len(Depths)
Script(k) ==
  IF k <= NP
  THEN LET p == Seqs[((k - 1) % Len(Seqs)) + 1] IN Pair(p[1], p[2], p[3], SigR(p[1]), SigR(p[2]))
  ELSE IF k <= NP + ND
  THEN LET q == Dps[((k - NP - 1) % Len(Dps)) + 1]
           d == Depths[((k - NP - 1) \div Len(Dps)) + 1] IN Deeply(q[1], d, q[2], SigR(q[1]))
  ELSE Random(k)
Init == n = 0 /\ s = [f |-> 0, s |-> <<>>]
Next == n < NP + (IF Deep THEN ND ELSE ND) + NRand /\ n' = n + 1 /\ s' = Script(n')
Spec == Init /\ [][Next]_<<n, s>>
Emit == n = 0 \/ PrintT("S " \o ToJson(s))
===============================================================================
