---------------------------------- MODULE MtGen ----------------------------------
(* Programs for several threads: every combination of short programs over *)
(* every starting state of the given sizes, and random longer ones.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NT, Kinds, Pres, Slots, NRand, RLen
VARIABLES n, s
Op(o, i, a) == o \o ToString(i) \o (IF o \in {"a", "p"} THEN "," \o ToString(a) ELSE "")
Tok(i, g) == i * 8 + g
\* thread t (0..), its objects 10t+10.., starting objects 1..np; the last is for everybody
Own(t, k) == 10 * (t + 1) + k
Mine(t, np) == IF t + 1 < np THEN t + 1 ELSE 0
Prog(kind, t, np) ==
  LET a(k, sz) == Op("a", Own(t, k), sz)
      p(k) == Op("p", Own(t, k), Tok(Own(t, k), (t + k) % 5))
      c(k) == Op("c", Own(t, k), 0)
      f(k) == Op("f", Own(t, k), 0)
      m == Mine(t, np)
  IN CASE kind = "apcf" -> <<a(0, 88), p(0), c(0), f(0)>>
       [] kind = "apc" -> <<a(0, 88), p(0), c(0)>>
       [] kind = "aa" -> <<a(0, 88), a(1, 120), p(0), p(1), c(0), c(1)>>
       [] kind = "f" -> IF m = 0 THEN <<a(0, 88), f(0)>> ELSE <<Op("f", m, 0)>>
       [] kind = "fa" -> IF m = 0 THEN <<a(0, 88), f(0), a(0, 88), p(0), c(0)>> ELSE <<Op("f", m, 0), a(0, 88), p(0), c(0)>>
       [] kind = "afaf" -> <<a(0, 88), f(0), a(1, 88), p(1), c(1), f(1)>>
       [] kind = "call" -> IF np = 0 THEN <<a(0, 88), p(0), c(0), c(0)>> ELSE <<Op("c", np, 0), Op("i", np, 0)>>
       [] kind = "big" -> <<a(0, 70000), p(0), c(0), f(0)>>
       [] kind = "mid" -> <<a(0, 3000), a(1, 3000), p(1), c(1), f(0)>>
       [] kind = "ffi" -> <<Op("l", (t + np) % 5, 0), Op("l", 3, 0)>>
       [] kind = "prep" -> <<Op("x", (2 * t + np) % 5, 0), Op("x", 3, 0)>>
       [] kind = "again" -> IF m = 0 THEN <<a(0, 88), p(0), p(0), c(0)>> ELSE <<Op("c", m, 0), Op("p", m, Tok(m + 40, 1)), Op("c", m, 0), Op("p", m, Tok(m + 50, 2)), Op("i", m, 0)>>
Prefix(np) == FlattenSeq([k \in 1..np |-> <<Op("a", k, 88), Op("p", k, Tok(k, k % 5))>>])
Join(q) == FoldLeft(LAMBDA x, y : x \o " " \o y, "", q)
Plan(np, ks) == Join(Prefix(np)) \o FoldLeft(LAMBDA x, k : x \o " |" \o Join(Prog(ks[k], k - 1, np)), "", [k \in 1..NT |-> k])
Exh == { <<sl, np, ks>> : sl \in Slots, np \in Pres, ks \in [1..NT -> Kinds] }
\* with at most as many descending changes as there are orders worth having
All == SetToSeq(Exh)
R(S) == RandomElement(S)
Rand(z) ==
  LET np == R(Pres) + z - z
      ops(t) == FoldLeft(LAMBDA a, k :
                  LET x == R(1..10)
                      free == {j \in 0..4 : j \notin a.l}
                      j1 == R(IF free = {} THEN {0} ELSE free)
                      j2 == R(IF a.l = {} THEN {0} ELSE a.l)
                  IN IF x <= 4 /\ free # {} THEN [l |-> a.l \cup {j1}, q |-> a.q \o <<Op("a", Own(t, j1), R({88, 88, 96, 500, 4000})), Op("p", Own(t, j1), Tok(Own(t, j1), R(0..4)))>>]
                     ELSE IF x <= 7 /\ a.l # {} THEN [l |-> a.l \ {j2}, q |-> Append(a.q, Op("f", Own(t, j2), 0))]
                     ELSE IF x = 8 /\ a.l # {} THEN [a EXCEPT !.q = Append(@, Op("c", Own(t, j2), 0))]
                     ELSE IF x = 9 /\ np > 0 THEN [a EXCEPT !.q = Append(@, Op("c", np, 0))]
                     ELSE [a EXCEPT !.q = Append(@, Op("l", R(0..4), 0))],
                [l |-> {}, q |-> <<>>], [k \in 1..RLen |-> k]).q
  IN [sl |-> R(Slots), p |-> Join(Prefix(np)) \o FoldLeft(LAMBDA x, k : x \o " |" \o Join(ops(k - 1)), "", [k \in 1..NT |-> k])]
Init == n = 0 /\ s = [sl |-> 0, p |-> ""]
Next == n < Len(All) + NRand /\ n' = n + 1
        /\ s' = IF n' <= Len(All) THEN [sl |-> All[n'][1], p |-> Plan(All[n'][2], All[n'][3])] ELSE Rand(n')
Spec == Init /\ [][Next]_<<n, s>>
Emit == n = 0 \/ PrintT("P " \o ToJson(s))
===============================================================================
