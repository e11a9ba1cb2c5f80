------------------------------- MODULE Closures -------------------------------
(***************************************************************************)
(* Closure management as its users see it.  A process holds closures;      *)
(* each live one sits in a slot of its own of some executable table and    *)
(* carries the binding of its latest preparation.  Tables appear only when *)
(* all the others are full, and at most one stays without a live closure.  *)
(* Closures in memory of the user's own have a binding and no slot.        *)
(* Fork copies everything.  The machine that does this in the code is      *)
(* ClosuresImpl, which is checked to implement this module.                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Procs,    \* processes that may ever exist; 0 is the first
          Ids,      \* closures from the allocator
          Own,      \* closures in memory of the user's own
          Tabs,     \* names of executable tables
          N,        \* slots in a table
          Binds     \* bindings (0: not prepared yet)

VARIABLE st
\* st[p] = [up |-> FALSE, ...] for a process that does not exist
None == [t |-> 0, s |-> 0, b |-> 0]
Gone == [up |-> FALSE, clo |-> [i \in Ids |-> None], own |-> [o \in Own |-> None], tabs |-> {}]
Fresh == [Gone EXCEPT !.up = TRUE]
Live(q) == {i \in Ids : q.clo[i] # None}
InTab(q, t) == {i \in Live(q) : q.clo[i].t = t}
Full(q) == \A t \in q.tabs : Cardinality(InTab(q, t)) = N
Empty(q) == {t \in q.tabs : InTab(q, t) = {}}
Free(q, t) == (1..N) \ {q.clo[i].s : i \in InTab(q, t)}

AInit == st = [p \in Procs |-> IF p = 0 THEN Fresh ELSE Gone]
Upd(p, q) == st' = [st EXCEPT ![p] = q]
\* one new table at most, and only if there is no room
Grown(q) == {q.tabs} \cup (IF Full(q) THEN {q.tabs \cup {t} : t \in Tabs \ q.tabs} ELSE {})
Alloc(p, i) == LET q == st[p] IN
  /\ q.up /\ q.clo[i] = None
  /\ \E T \in Grown(q) : \E t \in T : \E s \in Free([q EXCEPT !.tabs = T], t) :
       Upd(p, [q EXCEPT !.tabs = T, !.clo[i] = [t |-> t, s |-> s, b |-> 0]])
AllocFails(p) == LET q == st[p] IN
  q.up /\ \E T \in Grown(q) : Upd(p, [q EXCEPT !.tabs = T])
Prep(p, i, b) == LET q == st[p] IN q.up /\ q.clo[i] # None /\ Upd(p, [q EXCEPT !.clo[i].b = b])
FreeClo(p, i) == LET q == st[p]
                     r == [q EXCEPT !.clo[i] = None] IN
  /\ q.up /\ q.clo[i] # None
  /\ \E D \in SUBSET Empty(r) : Upd(p, [r EXCEPT !.tabs = @ \ D])
MakeOwn(p, o) == LET q == st[p] IN q.up /\ q.own[o] = None /\ Upd(p, [q EXCEPT !.own[o] = [t |-> 99, s |-> 0, b |-> 0]])
PrepOwn(p, o, b) == LET q == st[p] IN q.up /\ q.own[o] # None /\ Upd(p, [q EXCEPT !.own[o].b = b])
DropOwn(p, o) == LET q == st[p] IN q.up /\ q.own[o] # None /\ Upd(p, [q EXCEPT !.own[o] = None])
Fork(p, r) == st[p].up /\ ~st[r].up /\ st' = [st EXCEPT ![r] = st[p]]
Exit(p) == st[p].up /\ Upd(p, Gone)
ANext == \E p \in Procs :
  \/ \E i \in Ids : Alloc(p, i) \/ FreeClo(p, i) \/ \E b \in Binds : Prep(p, i, b)
  \/ \E o \in Own : MakeOwn(p, o) \/ DropOwn(p, o) \/ \E b \in Binds : PrepOwn(p, o, b)
  \/ AllocFails(p) \/ Exit(p)
  \/ \E r \in Procs : Fork(p, r)
ASpec == AInit /\ [][ANext]_st

\* what users rely on
Isolated == \A p \in Procs : \A i, j \in Live(st[p]) :
  i # j => <<st[p].clo[i].t, st[p].clo[i].s>> # <<st[p].clo[j].t, st[p].clo[j].s>>
Backed == \A p \in Procs : \A i \in Live(st[p]) : st[p].clo[i].t \in st[p].tabs
Bounded == \A p \in Procs : Cardinality(Empty(st[p])) <= 1
Reclaimed == \A p \in Procs : Live(st[p]) = {} => Cardinality(st[p].tabs) <= 1
===============================================================================
