------------------------------- MODULE ClosTrace -------------------------------
(***************************************************************************)
(* Validates recorded closure histories against Closures.  Every line is   *)
(* one history: what was asked and what was seen after every operation     *)
(* (calls of live closures, contents, protections, mappings, descriptors,  *)
(* files, locks).  The abstract state is rebuilt from the operations; what *)
(* was seen must be something Closures allows in that state.               *)
(*                                                                         *)
(* Addresses are pairs <<a \div 2^28, a % 2^28>>.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Functions, Json, IOUtils, TLC, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Chk(c, t) == IF c THEN {} ELSE {t}
Add(a, n) == IF a[2] + n >= 268435456 THEN <<a[1] + 1, a[2] + n - 268435456>> ELSE <<a[1], a[2] + n>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Apart(a, n, b, k) == Leq(Add(a, n), b) \/ Leq(Add(b, k), a)
PageOf(a) == <<a[1], a[2] \div 4096>>
Pages(n) == (n + 4095) \div 4096

\* ---------------------------------------------------------------- candidates
\* cs: the states of the candidates for a file, in the documented order
Works(cs, k) == cs[k] \in {"o", "t"}
FirstWorking(cs) == IF \E k \in 1..Len(cs) : Works(cs, k)
                    THEN CHOOSE k \in 1..Len(cs) : Works(cs, k) /\ \A j \in 1..(k - 1) : ~Works(cs, j)
                    ELSE 0

\* ---------------------------------------------------------------- one process
Start == [live |-> <<>>, own |-> <<>>, x |-> <<>>, mb |-> 0, hb |-> 0, size |-> 0, peak |-> 0, big |-> 0, started |-> FALSE]
Up(ps, p) == p \in DOMAIN ps
Restr(f, i) == [k \in DOMAIN f \ {i} |-> f[k]]
With(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]
Tables(x) == FoldLeft(LAMBDA a, r : a + r[3], 0, x)

\* which property a failure of a closure to do its job belongs to
Blame(e, g, id, what) ==
  {"C15:" \o what}
  \cup (IF g.forked THEN {"C22:" \o what} ELSE {})
  \cup (IF g.faults > 0 THEN {"C18:" \o what} ELSE {})
  \cup (IF g.owned \/ id >= 2000 THEN {"C23:" \o what} ELSE {})
  \cup (IF e.lib # "" THEN {"C24:" \o what} ELSE {})
  \cup (IF \E k \in DOMAIN e.cs : e.cs[k] # "o" THEN {"C19:" \o what} ELSE {})

\* without /proc/self/maps (modes 5, 6) static trampolines need the first
\* candidate that can be opened to work
FirstOpen(cs) == IF \E k \in 1..Len(cs) : cs[k] \notin {"a", "f", "T", "r", "n", "w"}
                 THEN CHOOSE k \in 1..Len(cs) : cs[k] \notin {"a", "f", "T", "r", "n", "w"} /\ \A j \in 1..(k - 1) : cs[j] \in {"a", "f", "T", "r", "n", "w"}
                 ELSE 0
Static(e, g) == e.stat = 1 /\ ~g.soiled /\ (e.mode < 5 \/ (FirstOpen(e.cs) # 0 /\ Works(e.cs, FirstOpen(e.cs))))
NoWx(e) == e.mode \notin {0, 5}
\* pages both writable and executable are expected only where the library
\* is built without static trampolines, or had to do without them, and
\* nothing forbids such pages
WxAllowed(e, g) == ~NoWx(e) /\ ~Static(e, g)

Probe(e, g, s, r) ==
  LET id == r[1]
      c == IF id \in DOMAIN s.live THEN s.live[id] ELSE IF id \in DOMAIN s.own THEN s.own[id] ELSE [b |-> <<>>]
  IN IF c.b = <<r[2], r[3], r[4]>> /\ r[5] = 1 THEN {} ELSE Blame(e, g, id, "binding")

After(e, g, s, o) ==
  LET nlive == Cardinality(DOMAIN s.live)
      ntab == Tables(o.x)
      codepages == {PageOf(s.live[i].c) : i \in DOMAIN s.live}
      tabpages == UNION { {<<r[1], (r[2] \div 4096) + k>> : k \in 0..(r[3] - 1)} : r \in ToSet(o.x) }
      heap == o.hb - (IF Static(e, g) THEN 2 * ntab ELSE 0)
      room == 12 + 3 * Pages(s.peak) + 2 * Pages(s.big)
  IN UNION {Probe(e, g, s, r) : r \in ToSet(o.pr)}
     \cup UNION {Blame(e, g, id, "contents") : id \in ToSet(o.pt)}
     \cup Chk(\A i \in DOMAIN s.live : s.live[i].b = <<>> \/ e.probes > 0 \/ \E r \in ToSet(o.pr) : r[1] = i, "C15:not-probed")
     \* protections, pm: id, code w, code x, data w, data x
     \cup UNION { Chk(r[3] = 1 /\ r[4] = 1, "C15:not-usable")
                  \cup Chk(WxAllowed(e, g) \/ (r[2] = 0 /\ r[5] = 0), "C17:protection") : r \in ToSet(o.pm) }
     \cup Chk(WxAllowed(e, g) \/ o.wx = 0, "C17:writable-and-executable")
     \cup Chk(~Static(e, g) \/ o.wc = 0, "C17:asked-for-both")
     \* once SELinux is known to be there (a failure may have hidden it)
     \cup Chk(e.mode \notin {2, 3} \/ g.faults > 0 \/ e.faulty \/ o.wc = 0, "C17:asked-for-both")
     \cup Chk(~Static(e, g) \/ o.al = 0, "C24:code-from-changed-file")
     \* tables
     \cup (IF ~Static(e, g) THEN {}
           ELSE Chk(codepages \subseteq tabpages, "C16:table-of-live-closure-gone")
                \cup Chk(Cardinality(tabpages \ codepages) <= 1, "C16:spare-tables")
                \cup Chk(o.mb <= (ntab + 1) * (512 + 64 * e.n), "C16:table-records"))
     \cup Chk(heap <= (IF Static(e, g) \/ WxAllowed(e, g) THEN room ELSE 2 * room + 4), "C16:heap")
     \cup Chk(o.bu = 0, "C15:foreign-mapping-removed")
     \* descriptors, files, locks
     \cup Chk(o.ne = 0, "C20:descriptor-inherited")
     \cup (IF o.fi = 0 THEN {} ELSE {"C20:unused-file-kept", "C18:unused-file-kept"})
     \cup (IF o.fd <= 3 THEN {} ELSE {"C20:descriptors", "C18:descriptors"})
     \cup Chk(o.fl = 0, "C20:file-left")
     \cup Chk(o.nl = 0, "C20:file-used-before-unlink")
     \cup Chk(o.bc = 0, "C20:foreign-close")
     \cup (IF o.lk = 0 /\ o.dl = 0 THEN {} ELSE {"C18:lock", "C15:lock"})
     \cup Chk(o.ho = 0, "C18:no-space-behind-mapping")
     \* C19: files are taken in order, the first that works is used and kept
     \cup (IF o.h > 0 \/ g.faults > 0 THEN {}
           ELSE LET w == FirstWorking(g.cs) IN
                Chk(\A k \in DOMAIN o.used : o.used[k] + 1 = (IF g.chosen = 0 THEN w ELSE g.chosen), "C19:not-the-first-working")
                \cup Chk(\A k \in DOMAIN o.att : w = 0 \/ o.att[k] + 1 <= w, "C19:tried-beyond")
                \cup Chk(g.chosen = 0 \/ o.att = <<>>, "C19:not-reused")
                \* the static stage and the dynamic stage each go through the list once
                \cup Chk(Cardinality({k \in 2..Len(o.att) : o.att[k] < o.att[k - 1]}) <= 1, "C19:order"))

\* closure memory comes from a file where the library has no static
\* trampolines to offer and may not map pages writable and executable, and
\* static trampolines do where the library's own file cannot be found
NeedsFile(e, g) == IF Static(e, g) THEN e.mode >= 5 ELSE NoWx(e)
\* must an allocation succeed?
Obstacle(e, g, o) ==
  \/ o.h > 0
  \/ e.nofail
  \/ NeedsFile(e, g) /\ (IF g.chosen = 0 THEN FirstWorking(g.cs) = 0 ELSE ~Works(g.cs, g.chosen))

Alloc(e, g, s, o) ==
  IF o.st = 0
  THEN [s |-> [s EXCEPT !.x = o.x, !.mb = o.mb, !.hb = o.hb, !.big = IF o.sz > @ THEN o.sz ELSE @],
        r |-> (IF Obstacle(e, g, o) THEN {} ELSE
                 {"C15:allocation-failed", "C18:allocation-failed", "C19:allocation-failed"} \cup (IF g.forked THEN {"C22:allocation-failed"} ELSE {}))
              \cup Chk(~Static(e, g) \/ Tables(o.x) > Tables(s.x) \/ o.mb <= s.mb, "C18:memory-leak")
              \cup Chk(~Static(e, g) \/ Tables(o.x) <= Tables(s.x)
                       \/ (Tables(o.x) = Tables(s.x) + 1 /\ Cardinality(DOMAIN s.live) = Tables(s.x) * e.n), "C18:mapping-leak")]
  ELSE LET live == With(s.live, o.id, [w |-> o.w, c |-> o.c, sz |-> o.sz, b |-> <<>>])
           size == s.size + o.sz + 64
       IN [s |-> [s EXCEPT !.live = live, !.x = o.x, !.mb = o.mb, !.hb = o.hb, !.size = size, !.peak = IF size > @ THEN size ELSE @, !.started = TRUE,
                           !.big = IF o.sz > @ THEN o.sz ELSE @],
           r |-> Chk(\A i \in DOMAIN s.live : Apart(o.w, o.sz, s.live[i].w, s.live[i].sz), "C15:memory-shared")
                 \cup Chk(\A i \in DOMAIN s.own : Apart(o.w, o.sz, s.own[i].w, 88), "C23:memory-shared")
                 \cup Chk(\A i \in DOMAIN s.live : o.c # s.live[i].c, "C15:code-shared")
                 \cup Chk(o.w # <<0, 0>> /\ o.c # <<0, 0>> /\ (o.w[2] % 8 = 0), "C15:address")
                 \cup (IF ~Static(e, g) \/ Tables(o.x) <= Tables(s.x) THEN {}
                       ELSE Chk(Tables(o.x) = Tables(s.x) + 1 /\ Cardinality(DOMAIN s.live) = Tables(s.x) * e.n, "C16:needless-table"))]

Prep(e, g, s, o) ==
  LET b == <<o.fn, o.sg, o.ud>> IN
  IF o.st = -1 THEN [s |-> s, r |-> {}]
  ELSE IF o.st # 0 THEN [s |-> s, r |-> Blame(e, g, o.id, "preparation-failed")]
  ELSE IF o.id \in DOMAIN s.own THEN [s |-> [s EXCEPT !.own[o.id].b = b], r |-> {}]
  ELSE [s |-> [s EXCEPT !.live[o.id].b = b], r |-> {}]

Drop(s, o) == IF o.st = -1 THEN s ELSE
  [s EXCEPT !.live = Restr(@, o.id), !.size = @ - s.live[o.id].sz - 64, !.x = o.x, !.mb = o.mb, !.hb = o.hb]
OwnUp(s, o) == [s EXCEPT !.own = With(@, o.id, [w |-> o.w, c |-> o.c, b |-> <<>>])]

Ev(e, a, o) ==
  LET g0 == a.g
      g == [g0 EXCEPT !.faults = @ + (IF "h" \in DOMAIN o THEN o.h ELSE 0),
                      \* trampoline set-up met a failure: the library may do without static ones
                      !.soiled = @ \/ ("h" \in DOMAIN o /\ o.h > 0 /\ ~a.ps[o.p].started)]
      s == a.ps[o.p]
      fin(t) == [ps |-> [a.ps EXCEPT ![o.p] = t.s], g |-> g, r |-> a.r \cup t.r \cup After(e, g, t.s, o)]
  IN IF a.stop THEN a
     ELSE IF "crash" \in DOMAIN o
     THEN [a EXCEPT !.stop = TRUE, !.r = @ \cup Blame(e, [g EXCEPT !.faults = @ + (IF e.faulty THEN 1 ELSE 0)], o.id, "crash")
                                       \cup (IF e.prop # "" THEN {e.prop \o ":crash"} ELSE {})]
     ELSE IF o.op = "k"
     THEN [a EXCEPT !.ps = With(@, o.id, s), !.g = [g EXCEPT !.forked = TRUE]]
     ELSE IF o.op = "z" THEN a
     ELSE IF o.op = "s" THEN [a EXCEPT !.g.cs[o.id] = o.c]
     ELSE LET f == CASE o.op = "a" -> fin(Alloc(e, g, s, o))
                     [] o.op = "p" -> fin(Prep(e, g, s, o))
                     [] o.op = "f" -> fin([s |-> Drop(s, o), r |-> {}])
                     [] o.op = "m" -> fin([s |-> s, r |-> IF o.st # 0 THEN {} ELSE Blame(e, g, o.id, "data-to-code")])
                     [] o.op = "c" -> fin([s |-> s, r |-> IF o.st = -1 THEN {} ELSE Probe(e, g, s, <<o.id>> \o o.g \o <<o.st>>)])
                     [] o.op = "o" -> fin([s |-> OwnUp(s, o), r |-> {}])
                     [] o.op = "r" -> fin([s |-> [s EXCEPT !.own = Restr(@, o.id)], r |-> {}])
                     [] OTHER -> fin([s |-> s, r |-> {}])
          IN [f EXCEPT !.g.owned = @ \/ o.op = "o",
                       !.g.chosen = IF @ = 0 /\ o.used # <<>> THEN o.used[Len(o.used)] + 1 ELSE @] @@ [stop |-> FALSE]

History(e) ==
  LET g0 == [faults |-> 0, forked |-> FALSE, owned |-> FALSE, soiled |-> e.soiled, cs |-> e.cs, chosen |-> 0]
  IN FoldLeft(LAMBDA a, o : Ev(e, a, o), [ps |-> (0 :> Start), g |-> g0, r |-> {}, stop |-> FALSE], e.ev).r

Init == l = 0 /\ bad = {}
Next == l < Len(Trace) /\ l' = l + 1 /\ bad' = History(Trace[l'])
Spec == Init /\ [][Next]_<<l, bad>>
Report == bad = {} \/ PrintT("REJECT " \o ToJson([i |-> Trace[l].i, why |-> SetToSeq(bad)]))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
