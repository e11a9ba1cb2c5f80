------------------------------ MODULE I386Trace ------------------------------
(***************************************************************************)
(* Validation of recorded 32-bit calls and closure invocations; see        *)
(* AbiTrace for the 64-bit ones.                                           *)
(***************************************************************************)
EXTENDS I386, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Chk(c, tag) == IF c THEN <<>> ELSE <<tag>>
All(n, F(_)) == FoldLeft(LAMBDA acc, i : acc \o F(i), <<>>, [i \in 1..n |-> i])
Pattern(n) == Rep("a5", n)
IsClo(m) == m \in {"clo", "goclo", "rawclo"}
P(p) == IF IsClo(p.mode) THEN "C26" ELSE "C25"
LeavesAt(lv, v, at(_, _)) == \A i \in 1..Len(lv) : Hx(v, lv[i].o, lv[i].n) = at(lv[i].o, lv[i].n)
Narrow(t) == RegKind(t)
Widen(t, h) == LET z == Scalar32[t.k].sz IN Hx(h, 0, z) \o ExtBytes(Hx(h, 0, z), z, 4, t.k \in SignedKinds)

Fetch(run, loc, o, n) == IF loc.reg THEN Hx(IF loc.n = 0 THEN run.ecx ELSE run.edx, o, n) ELSE Hx(run.stk, loc.n + o, n)
ArgsAt(p, run, xs, A, vals, ext) ==
  All(Len(xs), LAMBDA i :
    LET x == xs[i]
        at(o, n) == Fetch(run, A.loc[i], o, n)
    IN Chk(LeavesAt(x.lv, vals[i], at), P(p) \o ":value")
       \o (IF ext /\ Narrow(x.t) THEN Chk(Fetch(run, A.loc[i], 0, 4) = Widen(x.t, vals[i]), P(p) \o ":extension") ELSE <<>>))

\* result bytes as the convention delivers them; a float or double in st0 is compared through the value stored
ResAt(run, r, o, n) ==
  CASE r.c = "A" -> Hx(run.eax, o, n)
    [] r.c = "AD" -> IF o + n <= 4 THEN Hx(run.eax, o, n) ELSE IF o >= 4 THEN Hx(run.redx, o - 4, n) ELSE run.eax \o run.redx
    [] r.c = "F" -> CASE r.t.k = "f" -> run.st0f [] r.t.k = "d" -> run.st0d [] OTHER -> Hx(run.st0, 0, n)
    [] OTHER -> ""

State(p, run, depth) ==
  Chk(run.espa = 0, P(p) \o ":entry-alignment") \o Chk(run.x87i = 0, P(p) \o ":entry-x87") \o Chk(run.dfi = 0, P(p) \o ":entry-df")
  \o Chk(run.mxi = 0, P(p) \o ":entry-fpmode")
  \o Chk(run.spd = (IF IsClo(p.mode) THEN p.pops ELSE 0), P(p) \o ":stack-pointer")
  \o Chk(run.x87o = depth, P(p) \o ":x87-depth") \o Chk(run.cs = <<>>, P(p) \o ":registers")

Body(r) == IF r.sz > 4 THEN r.sz ELSE 4
Buffer(p, run, r) ==
  LET at(o, n) == IF r.mem THEN Hx(run.mr, o, n) ELSE ResAt(run, r, o, n)
  IN Chk(run.guard = 0, P(p) \o ":outside") \o
     (IF run.rvnull = 1 THEN <<>>
      ELSE Chk(LeavesAt(r.lv, run.buf, at), P(p) \o ":result")
           \o (IF Narrow(r.t) THEN Chk(run.buf = Widen(r.t, run.buf), P(p) \o ":widening")
               ELSE Chk(Hx(run.buf, r.sz, Body(r) - r.sz) = Pattern(Body(r) - r.sz), P(p) \o ":size")))

RawConv(p, o, xs) ==
  LET at(i) == 4 * p.ro[i]
  IN Chk(o.rsize >= 4 * p.rw, "C25:size-query")
     \o Chk(Len(o.pta) = Len(xs) /\ \A i \in 1..Len(xs) : o.pta[i] = p.ro[i], "C25:to-vector")
     \o All(Len(xs), LAMBDA i :
          LET f(q, n) == Hx(o.back, at(i) + q, n)
          IN Chk(LeavesAt(xs[i].lv, o.av[i], f), "C25:area-value")
             \o (IF Narrow(xs[i].t) THEN Chk(Hx(o.back, at(i), 4) = Widen(xs[i].t, o.av[i]), "C25:area-widening") ELSE <<>>))
     \o Chk(o.backtail = 0, "C25:area-overrun")

CallRun(p, o, run, xs, r) ==
  Chk(run.ent = 1, "C25:entered")
  \o (IF run.ent # 1 THEN <<>>
      ELSE ArgsAt(p, run, xs, Assign32(p.abi, r.mem, xs), o.av, TRUE)
           \o (IF r.mem THEN Chk(run.hideq = 1, "C25:hidden") \o Chk(run.hida = 0, "C25:hidden-align") \o Chk(run.hidw = 1, "C25:hidden-storage") ELSE <<>>)
           \o Buffer(p, run, r)
           \o All(Len(xs), LAMBDA i : Chk(run.av2[i] = o.av[i], "C25:argument-object"))
           \o Chk(run.avec = 1, "C25:argument-vector") \o Chk(run.cifeq = 1, "C25:cif")
           \o (IF p.mode = "go" THEN Chk(run.chain = 1, "C25:chain") ELSE <<>>)
           \o Chk(run.raweq = 1, "C25:area-changed")
           \o State(p, run, 0))

CloRun(p, run, xs, r) ==
  LET at(o, n) == IF r.mem THEN Hx(run.mem, o, n) ELSE ResAt(run, r, o, n)
  IN Chk(run.cnt = 1, "C26:invoked-once")
     \o (IF run.cnt = 0 THEN <<>>
         ELSE Chk(run.cifok = 1, "C26:interface") \o Chk(run.udok = 1, "C26:user-data")
              \o ArgsAt(p, run, xs, Assign32(p.abi, r.mem, xs), run.av, FALSE)
              \o Chk(run.rvok = 1, "C26:result-storage")
              \o (IF run.rvok # 1 THEN <<>>
                  ELSE Chk(run.guard = 0, "C26:outside")
                       \o (IF r.mem THEN Chk(run.eax = run.hid, "C26:hidden-returned") ELSE <<>>)
                       \o Chk(LeavesAt(r.lv, run.rv, at), "C26:result")
                       \o (IF Narrow(r.t) THEN Chk(run.eax = Widen(r.t, run.rv), "C26:widening") ELSE <<>>))
              \o State(p, run, p.x87)
              \o Chk(run.cifeq = 1, "C26:cif"))

Sizes(p, o, xs, r) ==
  Chk(o.tsz[1] = (IF r.t.k = "v" THEN 1 ELSE r.sz) /\ o.tal[1] = r.al
      /\ \A i \in 1..Len(xs) : o.tsz[i + 1] = xs[i].sz /\ o.tal[i + 1] = xs[i].al, P(p) \o ":layout")
Reasons(p, o) ==
  IF "crash" \in DOMAIN o THEN <<P(p) \o ":crash">>
  ELSE IF o.ok # 1 THEN <<P(p) \o ":not-prepared">>
  ELSE LET xs == Infos32(p.args)
           r == RetInfo32(p.ret)
       IN Sizes(p, o, xs, r)
          \o (IF p.mode = "raw" THEN RawConv(p, o, xs) ELSE <<>>)
          \o All(Len(o.runs), LAMBDA j : IF IsClo(p.mode) THEN CloRun(p, o.runs[j], xs, r) ELSE CallRun(p, o, o.runs[j], xs, r))

Init == l = 0 /\ bad = <<>>
Next == l < Len(Trace) /\ l' = l + 1 /\ bad' = Reasons(Trace[l'].p, Trace[l'].o)
Spec == Init /\ [][Next]_<<l, bad>>
Report == bad = <<>> \/ PrintT("REJECT " \o ToJson([i |-> Trace[l].i, why |-> bad]))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
