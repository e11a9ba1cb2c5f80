------------------------------- MODULE AbiTrace -------------------------------
(***************************************************************************)
(* Trace validation of recorded calls and closure invocations against the  *)
(* calling-convention specification.  Each line of the trace is one case:  *)
(* i (number), p (the case, as AbiPlan emitted it) and o (what the driver  *)
(* recorded about the real code).  One step consumes one case; a case that *)
(* the specification cannot explain is printed with the clauses it breaks, *)
(* each named "property:clause".  Every case must be consumed.             *)
(***************************************************************************)
EXTENDS AbiPlan, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

Chk(c, tag) == IF c THEN <<>> ELSE <<tag>>
All(n, F(_)) == FoldLeft(LAMBDA acc, i : acc \o F(i), <<>>, [i \in 1..n |-> i])
Pattern(n) == Rep("a5", n)

\* which property a clause belongs to, by mode and convention
Prop(p, what) ==
  CASE p.mode \in {"go", "goclo"}     -> "C12"
    [] p.mode \in {"raw", "rawclo"}   -> "C13"
    [] p.mode \in {"jraw", "jrawclo"} -> "C14"
    [] p.mode = "ownclo"              -> "C23"
    [] p.mode = "call" /\ IsMs(p.abi) -> "C08"
    [] p.mode = "clo"  /\ IsMs(p.abi) -> "C09"
    [] p.mode = "call" -> IF what = "res" THEN "C05" ELSE "C04"
    [] p.mode = "clo"  -> IF what = "res" THEN "C07" ELSE "C06"
    [] OTHER -> "C99"

Narrow(t) == t.k \in IntKinds /\ Scalar[t.k].sz < 8
Widen(t, h, m) == IF t.k \in IntKinds /\ Scalar[t.k].sz < m
                  THEN h \o ExtBytes(h, Scalar[t.k].sz, m, t.k \in SignedKinds) ELSE h

\* every leaf of x, with value bytes v, is found by at(offset, n)
LeavesAt(lv, v, at(_, _)) == \A i \in 1..Len(lv) : Hx(v, lv[i].o, lv[i].n) = at(lv[i].o, lv[i].n)

(***************************************************************************)
(* SysV: the registers and stack as a value store                          *)
(***************************************************************************)
RegOf(run, pc) == IF pc[1] = "I" THEN run.g[pc[2] + 1] ELSE run.x[pc[2] + 1]
FetchSysV(run, loc, o, n) ==
  IF loc.mem THEN Hx(run.stk, loc.off + o, n)
  ELSE Hx(RegOf(run, loc.pc[1 + (o \div 8)]), o % 8, n)

SysVArgs(run, xs, A, vals, ext, tag) ==
  All(Len(xs), LAMBDA i :
    LET x == xs[i]
        loc == A.loc[i]
        at(o, n) == FetchSysV(run, loc, o, n)
    IN Chk(LeavesAt(x.lv, vals[i], at), tag \o ":value")
       \o (IF ext /\ ~loc.mem /\ Narrow(x.t)
           THEN Chk(run.g[loc.pc[1][2] + 1] = Widen(x.t, Hx(vals[i], 0, x.sz), 8), tag \o ":extension") ELSE <<>>))

ResReg(run, pc) == CASE pc = "RAX" -> run.rax [] pc = "RDX" -> run.rdx [] pc = "XMM0" -> run.xmm0 [] pc = "XMM1" -> run.xmm1
                     [] pc = "X87" -> run.st0 [] OTHER -> ""
\* n result bytes at offset o of a SysV register result
ResAt(run, r, o, n) ==
  IF r.c = <<"CX87">> THEN IF o = 0 THEN Hx(run.st0, 0, n) ELSE Hx(run.st1, 0, n)
  ELSE IF r.x87 = 1 THEN Hx(run.st0, 0, n)
  ELSE Hx(ResReg(run, RetPieces(r.c)[1 + (o \div 8)]), o % 8, n)

MsResReg(run, r) == IF MsRet(r.t) = "X" THEN run.xmm0 ELSE run.rax

(***************************************************************************)
(* The caller's result buffer after a call                                 *)
(***************************************************************************)
Body(r) == IF r.sz > 8 THEN r.sz ELSE 8
ResultBuffer(p, run, r, hid, tag) ==
  LET at(o, n) == IF hid THEN Hx(run.mr, o, n)
                  ELSE IF IsMs(p.abi) THEN Hx(MsResReg(run, r), o, n) ELSE ResAt(run, r, o, n)
  IN Chk(run.guard = 0, tag \o ":outside") \o
     (IF run.rvnull = 1 THEN <<>>
      ELSE Chk(LeavesAt(r.lv, run.buf, at), tag \o ":value") \o
           (IF Narrow(r.t) THEN Chk(run.buf = Widen(r.t, Hx(run.buf, 0, r.sz), 8), tag \o ":widening")
            ELSE Chk(Hx(run.buf, r.sz, Body(r) - r.sz) = Pattern(Body(r) - r.sz), tag \o ":size")))

HiddenPointer(run, tag) == Chk(run.hideq = 1, tag \o ":hidden") \o Chk(run.hida = 0, tag \o ":hidden-align")
                           \o Chk(run.hidw = 1, tag \o ":hidden-storage")

(***************************************************************************)
(* Protected machine state                                                 *)
(***************************************************************************)
StateOK(run, depth) ==
  Chk(run.rspa = 0, "C10:entry-alignment") \o Chk(run.x87i = 0, "C10:entry-x87") \o Chk(run.dfi = 0, "C10:entry-df")
  \o Chk(run.mxi = 0, "C10:entry-fpmode") \o Chk(run.spd = 0, "C10:stack-pointer") \o Chk(run.x87o = depth, "C10:x87-depth")
  \o Chk(run.cs = <<>>, "C10:registers")

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
Unchanged(run, vals, n) ==
  All(n, LAMBDA i : Chk(run.av2[i] = vals[i], "C03:argument-object"))
  \o Chk(run.avec = 1, "C03:argument-vector") \o Chk(run.cifeq = 1, "C03:cif") \o Chk(run.typeq = 1, "C03:types")

CallSysV(p, o, run, xs, r) ==
  LET A == Assign(r.mem, xs)
      ta == Prop(p, "arg")
  IN SysVArgs(run, xs, A, o.av, TRUE, ta)
     \o Chk(run.al >= A.a.s /\ run.al <= 8, ta \o ":al")
     \o Chk(run.rspa = 0, ta \o ":entry-alignment")
     \o (IF r.mem THEN HiddenPointer(run, ta) ELSE <<>>)
     \o ResultBuffer(p, run, r, r.mem, Prop(p, "res"))

CallMs(p, o, run, xs, r) ==
  LET ta == Prop(p, "arg")
  IN All(Len(xs), LAMBDA i :
       LET x == xs[i]
           s == SlotOf(r.t, i)
           inl(off, n) == Hx(run.sl[s + 1], off, n)
           xm(off, n) == Hx(run.x[s + 1], off, n)
           rf(off, n) == Hx(run.rf[s + 1], off, n)
       IN IF ByRef(x.t)
          THEN Chk(LeavesAt(x.lv, o.av[i], rf), ta \o ":reference")
               \o Chk(run.ra[s + 1] % x.al = 0, ta \o ":reference-align")
               \o Chk(run.av2[i] = o.av[i], ta \o ":private-copy")
          ELSE Chk(LeavesAt(x.lv, o.av[i], inl), ta \o ":value")
               \o (IF s < 4 /\ x.t.k \in {"f", "d"} THEN Chk(LeavesAt(x.lv, o.av[i], xm), ta \o ":vector") ELSE <<>>))
     \o Chk(run.rspa = 0, ta \o ":entry-alignment")
     \o (IF r.msm THEN HiddenPointer(run, ta) ELSE <<>>)
     \o ResultBuffer(p, run, r, r.msm, Prop(p, "res"))

CallRun(p, o, run, xs, r) ==
  Chk(run.ent = 1, Prop(p, "arg") \o ":entered")
  \o (IF run.ent # 1 THEN <<>>
      ELSE (IF IsMs(p.abi) THEN CallMs(p, o, run, xs, r) ELSE CallSysV(p, o, run, xs, r))
           \o Unchanged(run, o.av, Len(xs))
           \o StateOK(run, 0)
           \o (IF p.mode = "go" THEN Chk(run.chain = 1, "C12:chain") ELSE <<>>)
           \o (IF IsRawMode(p.mode) THEN Chk(run.raweq = 1, Prop(p, "arg") \o ":area-changed") ELSE <<>>))

(***************************************************************************)
(* Raw argument areas                                                      *)
(***************************************************************************)
\* the words of a correct area for the values vals (pointer words are checked separately)
AreaOK(p, area, xs, vals, tag) ==
  All(Len(xs), LAMBDA i :
    LET x == xs[i]
        at(o, n) == Hx(area, 8 * p.ro[i] + o, n)
    IN IF p.ri[i] = 1 THEN <<>>
       ELSE Chk(LeavesAt(x.lv, vals[i], at), tag \o ":area-value")
            \o (IF Narrow(x.t) THEN Chk(Hx(area, 8 * p.ro[i], 8) = Widen(x.t, Hx(vals[i], 0, x.sz), 8), tag \o ":area-widening") ELSE <<>>))

RawConv(p, o, xs) ==
  LET t == Prop(p, "arg")
  IN Chk(o.rsize >= 8 * p.rw, t \o ":size-query")
     \o Chk(Len(o.pta) = Len(xs) /\ \A i \in 1..Len(xs) : o.pta[i] = (IF p.ri[i] = 1 THEN -1 ELSE p.ro[i]), t \o ":to-vector")
     \o AreaOK(p, o.back, xs, o.av, t) \o Chk(o.backtail = 0, t \o ":area-overrun")
     \o Chk(\A i \in 1..Len(xs) : o.backptr[i] = p.ri[i], t \o ":area-pointer")

(***************************************************************************)
(* Closures                                                                *)
(***************************************************************************)
SentSysV(run, xs, A, vals, tag) ==
  All(Len(xs), LAMBDA i :
    LET at(o, n) == FetchSysV(run, A.loc[i], o, n) IN Chk(LeavesAt(xs[i].lv, vals[i], at), tag \o ":value"))

SentMs(run, xs, r, vals, tag) ==
  All(Len(xs), LAMBDA i :
    LET x == xs[i]
        s == SlotOf(r.t, i)
        at(off, n) == IF ByRef(x.t) THEN Hx(run.rf[s + 1], off, n)
                      ELSE IF s < 4 /\ x.t.k \in {"f", "d"} THEN Hx(run.x[s + 1], off, n)
                      ELSE Hx(run.sl[s + 1], off, n)
    IN Chk(LeavesAt(x.lv, vals[i], at), tag \o ":value"))

CloResult(p, run, r, tag) ==
  LET hid == IF IsMs(p.abi) THEN r.msm ELSE r.mem
      at(o, n) == IF hid THEN Hx(run.mem, o, n)
                  ELSE IF IsMs(p.abi) THEN Hx(MsResReg(run, r), o, n) ELSE ResAt(run, r, o, n)
  IN Chk(run.guard = 0, tag \o ":outside")
     \o (IF hid THEN Chk(run.rax = run.hid, tag \o ":hidden-returned") ELSE <<>>)
     \o (IF hid /\ Len(run.mem) = 0 THEN <<tag \o ":hidden">> ELSE Chk(LeavesAt(r.lv, run.rv, at), tag \o ":value"))
     \o (IF ~IsMs(p.abi) /\ Narrow(r.t) /\ r.sz < 4
         THEN Chk(Hx(run.rax, 0, 4) = Widen(r.t, Hx(run.rv, 0, r.sz), 4), tag \o ":widening") ELSE <<>>)

CloRun(p, run, xs, r) ==
  LET ta == Prop(p, "arg")
      x87 == IF IsMs(p.abi) THEN 0 ELSE r.x87
  IN Chk(run.cnt = 1, ta \o ":invoked-once")
     \o (IF run.cnt = 0 THEN <<>>
         ELSE Chk(run.cifok = 1, ta \o ":interface") \o Chk(run.udok = 1, ta \o ":user-data")
              \o Chk(run.ala = 0, ta \o ":argument-alignment") \o Chk(run.rla = 0, Prop(p, "res") \o ":storage-alignment")
              \o (IF IsMs(p.abi) THEN SentMs(run, xs, r, run.av, ta)
                  ELSE SentSysV(run, xs, Assign(r.mem, xs), run.av, ta))
              \o (IF IsRawMode(p.mode) THEN AreaOK(p, run.raw, xs, run.av, ta) ELSE <<>>)
              \o Chk(run.rvok = 1, Prop(p, "res") \o ":result-storage")
              \o (IF run.rvok = 1 THEN CloResult(p, run, r, Prop(p, "res")) ELSE <<>>)
              \o StateOK(run, x87)
              \o Chk(run.cifeq = 1, "C03:cif") \o Chk(run.typeq = 1, "C03:types"))

(***************************************************************************)
Sizes(p, o, xs, r) ==
  Chk(o.tsz[1] = (IF r.t.k = "v" THEN 1 ELSE r.sz) /\ o.tal[1] = r.al
      /\ \A i \in 1..Len(xs) : o.tsz[i + 1] = xs[i].sz /\ o.tal[i + 1] = xs[i].al, "C01:layout")

IsClo(m) == m \in {"clo", "goclo", "rawclo", "jrawclo", "ownclo"}

Reasons(p, o) ==
  IF "crash" \in DOMAIN o THEN <<Prop(p, "arg") \o ":crash", Prop(p, "res") \o ":crash", "C10:crash">>
                               \o (IF IsClo(p.mode) THEN <<>> ELSE <<"C03:crash">>)
  ELSE IF o.ok # 1 THEN <<Prop(p, "arg") \o ":not-prepared", "C02:valid-request-rejected">>
  ELSE LET xs == Infos(p.args)
           r  == RetInfo(p.ret)
       IN Sizes(p, o, xs, r)
          \o (IF IsClo(p.mode)
              THEN Chk(o.ownwr = 0, "C23:wrote-outside")
                   \o All(Len(o.runs), LAMBDA j : CloRun(p, o.runs[j], xs, r))
              ELSE (IF IsRawMode(p.mode) THEN RawConv(p, o, xs) ELSE <<>>)
                   \o All(Len(o.runs), LAMBDA j :
                          LET rr == CallRun(p, o, o.runs[j], xs, r)
                          IN rr \o (IF j > 1 /\ rr # <<>> /\ CallRun(p, o, o.runs[1], xs, r) = <<>>
                                     THEN <<"C03:repeated-call">> ELSE <<>>)))

Init == l = 0 /\ bad = <<>>
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = Reasons(Trace[l'].p, Trace[l'].o)
Spec == Init /\ [][Next]_vars

Report == bad = <<>> \/ PrintT("REJECT " \o ToJson([i |-> Trace[l].i, why |-> bad]))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
