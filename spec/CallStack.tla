------------------------------- MODULE CallStack -------------------------------
(***************************************************************************)
(* Calls and callbacks as plain C calls: a stack of activations.  An       *)
(* activation is entered along a route (through ffi_call, a closure's      *)
(* code, the raw, Java or Go variants, in some ABI) with arguments; it may *)
(* enter another one, return to its caller, or leave to an activation      *)
(* further down that prepared for it by setjmp (flag 1) or try (flag 2).   *)
(* Expected gives the observable events of a script of such steps.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Routes == 0..16
\* 0 ffi_call   1 ffi_call GNUW64   2 ffi_call WIN64   3 closure   4 closure GNUW64   5 closure WIN64
\* 6 ffi_call of a closure   7 the same GNUW64   8 raw call   9 raw closure   10 Java raw call
\* 11 Java raw closure   12 Go call   13 Go call of a Go closure   14 raw call of a raw closure
\* 15 Go call GNUW64   16 ffi_call ignoring the result
Ms == {1, 2, 4, 5, 7, 15}
\* exceptions pass through activations of the default ABI only
Unwinds(r) == r \notin Ms
Sigs(r) == IF r \in Ms \cup {8, 9, 14} THEN 0..3 ELSE IF r \in {10, 11} THEN {0, 2} ELSE 0..4
IsClosure(r) == r \in {3, 4, 5, 6, 7, 9, 11, 13, 14}
Flags == 0..2

\* ops: [o |-> "E", r, s, c, f], [o |-> "R"], [o |-> "J", k], [o |-> "T", k]
Ent(r, s, c, f) == [o |-> "E", r |-> r, s |-> s, c |-> c, f |-> f]
Ret == [o |-> "R"]
Jump(k) == [o |-> "J", k |-> k]
Throw(k) == [o |-> "T", k |-> k]
\* a stack is a sequence of [r, f]; element k + 1 is level k
Can(st, op) ==
  CASE op.o = "E" -> op.s \in Sigs(op.r)
    [] op.o = "R" -> Len(st) > 1
    [] op.o = "J" -> op.k < Len(st) /\ st[op.k + 1].f = 1
    [] op.o = "T" -> op.k < Len(st) /\ st[op.k + 1].f = 2 /\ \A i \in (op.k + 2)..Len(st) : Unwinds(st[i].r)
Step(st, op) ==
  CASE op.o = "E" -> Append(st, [r |-> op.r, f |-> op.f])
    [] op.o = "R" -> SubSeq(st, 1, Len(st) - 1)
    [] op.o \in {"J", "T"} -> SubSeq(st, 1, op.k + 1)
\* number of argument words that can be seen, and of result words
Args(s) == <<1, 2, 9, 3, 2>>[s + 1]
Ress(r, s) == IF r = 16 THEN 0 ELSE <<1, 3, 1, 2, 1>>[s + 1]
\* the event of one step: entering shows route, signature, closure and the
\* token in every argument; returning shows the result in every word at the
\* caller, locals intact; being caught shows locals intact
Event(st, op, tok, pc) ==
  CASE op.o = "E" -> <<"E", Len(st), op.r, op.s, IF IsClosure(op.r) THEN op.c ELSE -1>> \o [k \in 1..Args(op.s) |-> tok * 16]
    [] op.o = "R" -> <<"R", Len(st) - 2>> \o [k \in 1..Ress(st[Len(st)].r, st[Len(st)].s) |-> pc] \o <<1>>
    [] op.o \in {"J", "T"} -> <<"C", op.k, op.o, 1>>
Expected(flag0, script) ==
  LET one(a, op) ==
        LET tok == IF op.o = "E" THEN a.tok + 1 ELSE a.tok
            st2 == IF op.o = "E" THEN Append(a.st, [r |-> op.r, f |-> op.f, s |-> op.s]) ELSE Step(a.st, op)
        IN [st |-> st2, tok |-> tok, pc |-> a.pc + 1, ev |-> Append(a.ev, Event(a.st, op, tok, a.pc + 1))]
  IN FoldLeft(one, [st |-> <<[r |-> -1, f |-> flag0, s |-> 0]>>, tok |-> 0, pc |-> 0, ev |-> <<>>], script)
===============================================================================
