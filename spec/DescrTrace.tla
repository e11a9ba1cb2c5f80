------------------------------ MODULE DescrTrace ------------------------------
(***************************************************************************)
(* Validates recorded preparation histories.  Line: w, q (requests), o (one*)
(* observation per request: st status; sz, al of every node afterwards;    *)
(* offs the offsets written; tail nothing written beyond; same: kind and   *)
(* member lists of all nodes unchanged; cif: interface fields as asked),   *)
(* or builtin descriptor records.                                          *)
(***************************************************************************)
EXTENDS Descr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Chk(c, t) == IF c THEN <<>> ELSE <<t>>

Step(w, L, q, pre, o) ==
  LET a == Answer(w, L, q)
      T == Touches(w, q)
  IN Chk(o.st = a, "C02:status")
     \o (IF a # OK \/ o.st # OK THEN <<>>
         ELSE Chk(\A i \in T : o.sz[i] = L[i].sz /\ o.al[i] = L[i].al, "C01:layout")
              \o (IF q.op = "off" /\ ~q.null THEN Chk(o.offs = L[q.ref.n].offs, "C01:offsets") \o Chk(o.tail = 1, "C01:offsets-overrun") ELSE <<>>)
              \o (IF q.op = "cif" THEN Chk(o.cif = 1, "C01:interface") ELSE <<>>))
     \o Chk(\A i \in DOMAIN w : i \notin T => o.sz[i] = pre.sz[i] /\ o.al[i] = pre.al[i], "C01:unrelated-changed")
     \* a laid out valid description keeps its layout whatever happens
     \o Chk(\A i \in DOMAIN w : (L[i].ok /\ pre.sz[i] = L[i].sz) => (o.sz[i] = L[i].sz /\ o.al[i] = L[i].al), "C01:relayout")
     \o Chk(o.same = 1, "C01:description-rewritten")

History(e) ==
  LET L == LayAll(e.w)
      zero == [sz |-> [i \in DOMAIN e.w |-> 0], al |-> [i \in DOMAIN e.w |-> 0]]
  IN FoldLeft(LAMBDA acc, j : acc \o Step(e.w, L, e.q[j], IF j = 1 THEN zero ELSE e.o[j - 1], e.o[j]), <<>>, [j \in 1..Len(e.q) |-> j])

Builtin(e) == Chk(e.sz = Scalar[e.k].sz /\ e.al = Scalar[e.k].al, "C01:builtin")

Reasons(e) == IF "crash" \in DOMAIN e THEN <<"C01:crash", "C02:crash">>
              ELSE IF "k" \in DOMAIN e THEN Builtin(e)
              ELSE IF Len(e.o) # Len(e.q) THEN <<"C02:incomplete">> ELSE History(e)

Init == l = 0 /\ bad = <<>>
Next == l < Len(Trace) /\ l' = l + 1 /\ bad' = Reasons(Trace[l'])
Spec == Init /\ [][Next]_<<l, bad>>
Report == bad = <<>> \/ PrintT("REJECT " \o ToJson([i |-> Trace[l].i, why |-> bad]))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
