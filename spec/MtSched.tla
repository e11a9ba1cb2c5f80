--------------------------------- MODULE MtSched ---------------------------------
(***************************************************************************)
(* Schedules for programs whose threads have the given numbers of points   *)
(* (class 0: locks and system calls, 1: also unlocked accesses to shared   *)
(* memory, 2: all of them).  Every single preemption at every point of     *)
(* class 2; pairs at points of class 1 and triples at points of class 0,   *)
(* all of them or a random subset; turn strings over class 0.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Max1, Max2, Max3, NTurn
In == ndJsonDeserialize(IOEnv.COUNTS)
\* In[k]: [i, nt, cnt |-> sequence per thread of <<n0, n1, n2>>]
VARIABLE l
Some(S, m) == IF Cardinality(S) <= m THEN S ELSE RandomSubset(m, S)
RSeq(S, m) == [k \in 1..m |-> RandomElement(S) ]
Str(p) == ToString(p[1]) \o "." \o ToString(p[2]) \o "." \o ToString(p[3]) \o "." \o ToString(p[4])
Pts(e, c) == UNION { { <<c, t, k, u>> : k \in 0..(e.cnt[t + 1][c + 1] - 1), u \in (0..(e.nt - 1)) \ {t} } : t \in 0..(e.nt - 1) }
One(e) == {Str(p) : p \in Some(Pts(e, 2), Max1)}
\* a second preemption is of the thread the first one went to, or of the first thread later on
Pair(p, r) == IF r[2] = p[4] \/ (r[2] = p[2] /\ r[3] > p[3]) THEN {Str(p) \o "," \o Str(r)} ELSE {}
Two(e) ==
  LET P == Pts(e, 1)
      n == Cardinality(P)
  IN IF n * n <= 2 * Max2 THEN UNION { Pair(p, r) : p \in P, r \in P }
     ELSE LET A == RandomSubset(IF n <= Max2 \div 12 THEN n ELSE Max2 \div 12, P)
          IN UNION { UNION { Pair(p, r) : r \in RandomSubset(IF n < 16 THEN n ELSE 16, P) } : p \in A }
Three(e) ==
  LET P == Pts(e, 0)
      n == Cardinality(P)
      A == IF n = 0 THEN {} ELSE RandomSubset(IF n <= Max3 \div 16 THEN n ELSE Max3 \div 16, P)
      q == IF n < 4 THEN n ELSE 4
  IN UNION { UNION { UNION { {Str(p) \o "," \o Str(r) \o "," \o Str(x)} : x \in RandomSubset(q, P) } : r \in RandomSubset(q, P) } : p \in A }
Turns(e) == { FoldLeft(LAMBDA a, b : a \o ToString(RandomElement(0..(e.nt - 1)) + b - b), "T", [k \in 1..(10 + (z % 50)) |-> k]) : z \in 1..NTurn }
All(e) == One(e) \cup Two(e) \cup Three(e) \cup Turns(e) \cup {"-"}
Init == l = 0
Next == l < Len(In) /\ l' = l + 1 /\ PrintT("S " \o ToJson([i |-> In[l'].i, s |-> SetToSeq(All(In[l']))]))
Spec == Init /\ [][Next]_l
===============================================================================
