----------------------------- MODULE ClosuresImpl -----------------------------
(***************************************************************************)
(* The table allocator as src/tramp.c does it: a list of the tables that   *)
(* have room (newest first), per table a last-in first-out list of free    *)
(* slots; a table that becomes free again is dropped unless it is the only *)
(* one with room.  TLC checks that this implements Closures and emits the  *)
(* transition graph, from which the conformance histories are cut.         *)
(* Bug is a negative control: "keep" never drops a table, "drop" drops it  *)
(* one free too early, "share" forgets to take the slot off the list.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, SequencesExt

CONSTANTS Procs, Ids, Own, Tabs, N, Binds, Bug, Faults
VARIABLES m, op
vars == <<m, op>>

None == [t |-> 0, s |-> 0, b |-> 0]
Gone == [up |-> FALSE, clo |-> [i \in Ids |-> None], own |-> [o \in Own |-> None], tf |-> <<>>, fl |-> <<>>]
\* tf: sequence of [t, f]: mapped tables with their free lists; fl: tables with room
NewTab(q) == CHOOSE t \in Tabs : (\A x \in ToSet(q.tf) : x.t # t) /\ \A u \in Tabs : u < t => \E x \in ToSet(q.tf) : x.t = u
HasNew(q) == \E t \in Tabs : \A x \in ToSet(q.tf) : x.t # t
Get(q, t) == (CHOOSE x \in ToSet(q.tf) : x.t = t).f
Put(q, t, f) == [q EXCEPT !.tf = [k \in DOMAIN @ |-> IF @[k].t = t THEN [t |-> t, f |-> f] ELSE @[k]]]
Without(s, t) == SelectSeq(s, LAMBDA x : x # t)
AddTable(q) == LET t == NewTab(q) IN
  [q EXCEPT !.tf = Append(@, [t |-> t, f |-> [k \in 1..N |-> N + 1 - k]]), !.fl = <<t>> \o @]
DelTable(q, t) == [q EXCEPT !.tf = SelectSeq(@, LAMBDA x : x.t # t), !.fl = Without(@, t)]
Ready(q) == IF q.fl = <<>> THEN AddTable(q) ELSE q
Take(q, i) ==
  LET t == q.fl[1]
      f == Get(q, t)
      g == IF Bug = "share" THEN f ELSE Tail(f)
      r == Put(q, t, g)
  IN [r EXCEPT !.fl = IF g = <<>> THEN Tail(@) ELSE @, !.clo[i] = [t |-> t, s |-> f[1], b |-> 0]]
Give(q, i) ==
  LET c == q.clo[i]
      f == <<c.s>> \o Get(q, c.t)
      r == [Put(q, c.t, f) EXCEPT !.clo[i] = None]
      a == IF Len(f) = 1 THEN [r EXCEPT !.fl = <<c.t>> \o @] ELSE r
      n == IF Bug = "drop" THEN N - 1 ELSE N
  IN IF Len(f) >= n /\ Len(a.fl) > 1 /\ Bug # "keep" THEN DelTable(a, c.t) ELSE a

Init == /\ m = [p \in Procs |-> IF p = 0 THEN [Gone EXCEPT !.up = TRUE] ELSE Gone]
        /\ op = [o |-> "init", p |-> 0, i |-> 0, b |-> 0]
Do(p, q, o, i, b) == m' = [m EXCEPT ![p] = q] /\ op' = [o |-> o, p |-> p, i |-> i, b |-> b]
Lowest(S, i) == i \in S /\ \A j \in S : j >= i
Free(q) == {i \in Ids : q.clo[i] = None}
Next == \E p \in Procs : LET q == m[p] IN q.up /\
  \/ \E i \in Ids : Lowest(Free(q), i) /\ (q.fl # <<>> \/ HasNew(q)) /\ Do(p, Take(Ready(q), i), "a", i, 0)
  \/ Faults /\ Free(q) # {} /\ (q.fl # <<>> \/ HasNew(q)) /\ \E r \in {q, Ready(q)} : Do(p, r, "x", CHOOSE i \in Ids : Lowest(Free(q), i), 0)
  \/ \E i \in Ids \ Free(q) : Do(p, Give(q, i), "f", i, 0)
  \/ \E i \in Ids \ Free(q) : \E b \in Binds : q.clo[i].b # b /\ Do(p, [q EXCEPT !.clo[i].b = b], "p", i, b)
  \/ \E o \in Own : q.own[o] = None /\ Do(p, [q EXCEPT !.own[o] = [t |-> 99, s |-> 0, b |-> 0]], "o", o, 0)
  \/ \E o \in Own : q.own[o] # None /\ Do(p, [q EXCEPT !.own[o] = None], "r", o, 0)
  \/ \E o \in Own : \E b \in Binds : q.own[o] # None /\ q.own[o].b # b /\ Do(p, [q EXCEPT !.own[o].b = b], "P", o, b)
  \/ \E r \in Procs : r # 0 /\ ~m[r].up /\ (\A u \in Procs : u < r => m[u].up) /\ m' = [m EXCEPT ![r] = q]
                        /\ op' = [o |-> "k", p |-> p, i |-> r, b |-> 0]
Spec == Init /\ [][Next]_vars

Abs == INSTANCE Closures WITH
  st <- [p \in Procs |-> [up |-> m[p].up, clo |-> m[p].clo, own |-> m[p].own, tabs |-> {x.t : x \in ToSet(m[p].tf)}]]
Implements == Abs!ASpec
Isolated == Abs!Isolated
Backed == Abs!Backed
Bounded == Abs!Bounded
Reclaimed == Abs!Reclaimed
View == m
Pack(z) == [p \in Procs |-> IF ~z[p].up THEN <<>> ELSE
  << [i \in Ids |-> <<z[p].clo[i].t, z[p].clo[i].s, z[p].clo[i].b>>], [i \in Own |-> <<z[p].own[i].t, z[p].own[i].b>>],
     [k \in DOMAIN z[p].tf |-> <<z[p].tf[k].t, z[p].tf[k].f>>], z[p].fl >>]
Emit == PrintT("E " \o ToJson(<<ToString(Pack(m)), <<op'.o, op'.p, op'.i, op'.b>>, ToString(Pack(m'))>>))
===============================================================================
