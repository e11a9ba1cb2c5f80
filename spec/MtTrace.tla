--------------------------------- MODULE MtTrace ---------------------------------
(***************************************************************************)
(* Every line is what several threads saw of the closure operations under  *)
(* one schedule: calls ("i") and returns ("r") in the order they happened. *)
(* There must be a sequential order of the operations, each at a moment    *)
(* between its call and its return, in which every result is one that      *)
(* Closures allows; configurations are carried along as a set.             *)
(* Addresses are pairs <<a \div 2^28, a % 2^28>>.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Chk(c, t) == IF c THEN {} ELSE {t}
Add(a, n) == IF a[2] + n >= 268435456 THEN <<a[1] + 1, a[2] + n - 268435456>> ELSE <<a[1], a[2] + n>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Apart(a, n, b, k) == Leq(Add(a, n), b) \/ Leq(Add(b, k), a)
\* a closure is identified by its id and which of its allocations this is
\* pending operations: [t, o, id, g, w, c, sz], where allocations know their result
OfThread(P, t) == {p \in P : p.t = t}
\* a configuration: live closures, and the pending operations that took effect
Lin(c, p) ==
  CASE p.o = "a" -> IF \A x \in c.live : Apart(x.w, x.sz, p.w, p.sz) /\ x.c # p.c /\ x.id # p.id
                    THEN {[live |-> c.live \cup {[id |-> p.id, w |-> p.w, c |-> p.c, sz |-> p.sz]}, done |-> c.done \cup {p.t}]} ELSE {}
    [] p.o = "f" -> IF \E x \in c.live : x.id = p.id
                    THEN {[live |-> {x \in c.live : x.id # p.id}, done |-> c.done \cup {p.t}]} ELSE {}
    [] OTHER -> {[live |-> c.live, done |-> c.done \cup {p.t}]}
RECURSIVE Reach(_, _)
Reach(cs, P) ==
  LET new == UNION { UNION { Lin(c, p) : p \in {q \in P : q.t \notin c.done} } : c \in cs }
  IN IF new \subseteq cs THEN cs ELSE Reach(cs \cup new, P)

\* what the result of an operation will be, found further on in the history
ResultAt(e, k, t) == CHOOSE j \in (k + 1)..Len(e.ev) : e.ev[j][1] = "r" /\ e.ev[j][2] = t /\ \A i \in (k + 1)..(j - 1) : ~(e.ev[i][1] = "r" /\ e.ev[i][2] = t)
HasResult(e, k, t) == \E j \in (k + 1)..Len(e.ev) : e.ev[j][1] = "r" /\ e.ev[j][2] = t
Step(e, a, k) ==
  LET x == e.ev[k] IN
  CASE x[1] = "i" ->
         LET hit == HasResult(e, k, x[2])
             r == IF hit THEN e.ev[ResultAt(e, k, x[2])] ELSE <<>>
             ok == hit /\ x[3] = "a" /\ r[5] = 1
             eff == IF x[3] \in {"a", "f"} THEN x[3] ELSE "-"
             p == IF ok THEN [t |-> x[2], o |-> "a", id |-> x[4], w |-> r[6], c |-> r[7], sz |-> x[5]]
                  ELSE [t |-> x[2], o |-> IF eff = "a" THEN "-" ELSE eff, id |-> x[4], w |-> <<0, 0>>, c |-> <<0, 0>>, sz |-> 0]
         IN [a EXCEPT !.P = @ \cup {p}, !.size = IF x[3] = "a" THEN @ + x[5] + 64 ELSE @]
    [] x[1] = "r" ->
         LET cs == {c \in Reach(a.cs, a.P) : x[2] \in c.done}
             fine == CASE x[3] = "a" -> Chk(x[5] = 1, "allocation-failed")
                       [] x[3] = "p" -> Chk(x[5] = 1, "preparation-failed")
                       [] x[3] = "f" -> Chk(x[5] = 1, "contents-changed")
                       [] OTHER -> Chk(x[5] = 1, "call-wrong")
         IN [a EXCEPT !.P = {p \in @ : p.t # x[2]}, !.cs = IF cs = {} THEN {[live |-> {}, done |-> {}]} ELSE {[c EXCEPT !.done = @ \ {x[2]}] : c \in cs},
                      !.bad = @ \cup fine \cup Chk(cs # {} \/ a.lost, "no-sequential-order"), !.lost = @ \/ cs = {}]
    [] x[1] = "z" ->
         LET pages == x[5] - 2 * (IF e.stat = 1 THEN x[7] ELSE 0) IN
         [a EXCEPT !.bad = @ \cup Chk(Len(SelectSeq(x[3], LAMBDA y : y[2] # 1)) = 0, "binding-lost")
                             \cup Chk(x[4] <= e.fd, "descriptors")
                             \cup Chk(x[8] = 0, "file-left") \cup Chk(x[9] = 0, "foreign-release") \cup Chk(x[10] = 0, "lock-misused")
                             \cup (IF x[2] = "free" THEN Chk(e.stat = 0 \/ x[7] <= 1, "tables-left") \cup Chk(x[6] <= e.mb, "records-left")
                                                         \cup Chk(pages <= 24 + 5 * ((a.size + 4095) \div 4096), "heap-left") ELSE {})]
History(e) ==
  LET a == FoldLeft(LAMBDA a, k : Step(e, a, k), [P |-> {}, cs |-> {[live |-> {}, done |-> {}]}, bad |-> {}, lost |-> FALSE, size |-> 0], [k \in DOMAIN e.ev |-> k])
  IN a.bad \cup Chk(e.sig = 0, "crash") \cup Chk(e.sig # 0 \/ e.done = 1, IF e.done = 2 THEN "deadlock" ELSE "endless")
Init == l = 0 /\ bad = {}
Next == l < Len(Trace) /\ l' = l + 1 /\ bad' = History(Trace[l'])
Spec == Init /\ [][Next]_<<l, bad>>
Report == bad = {} \/ PrintT("REJECT " \o ToJson([i |-> Trace[l].i, why |-> SetToSeq(bad)]))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
