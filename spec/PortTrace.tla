------------------------------ MODULE PortTrace ------------------------------
(***************************************************************************)
(* Validation of calls and closure invocations recorded on an interpreted  *)
(* processor; see AbiTrace for the native ones.                            *)
(***************************************************************************)
EXTENDS Ports, IOUtils
CONSTANTS PCall, PClo           \* the properties judged
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Chk(c, tag) == IF c THEN <<>> ELSE <<tag>>
All(n, F(_)) == FoldLeft(LAMBDA acc, i : acc \o F(i), <<>>, [i \in 1..n |-> i])
Pattern(n) == Rep("a5", n)
IsClo(m) == m \in {"clo", "goclo", "stclo"}
P(p) == IF IsClo(p.mode) THEN PClo ELSE PCall

\* bytes from..from+cnt-1 of a piece, given the registers and the stack
PieceBytes(x, f, stk, pc, from, cnt) ==
  CASE pc.w = "x" -> Hx(x, 8 * pc.n + from, cnt)
    [] pc.w = "v" -> Hx(f, 16 * pc.n + from, cnt)
    [] OTHER -> Hx(stk, pc.n + from, cnt)
Lesser(a, b) == IF a < b THEN a ELSE b
\* bytes o..o+n-1 of a value kept in pieces
Gather(x, f, stk, pcs, o, n) ==
  FoldLeft(LAMBDA acc, pc : LET lo == Max2(o, pc.o)
                                hi == Lesser(o + n, pc.o + pc.c)
                            IN IF lo < hi THEN acc \o PieceBytes(x, f, stk, pc, lo - pc.o, hi - lo) ELSE acc, "", pcs)
LeavesIn(x, f, stk, pcs, lv, v) == \A i \in 1..Len(lv) : Gather(x, f, stk, pcs, lv[i].o, lv[i].n) = Hx(v, lv[i].o, lv[i].n)
Boxed(f, pcs) == NanBox => \A i \in DOMAIN pcs : pcs[i].w = "v" /\ pcs[i].c = 4 => Hx(f, 16 * pcs[i].n + 4, 4) = "ffffffff"

Args(p, run, xs, A, vals, out) ==        \* out: libffi produced the registers
  All(Len(xs), LAMBDA i :
    LET x == xs[i]
        loc == A.loc[i]
        inRef(o, n) == Hx(run.ref[i], o, n)
    IN IF loc.ref
       THEN Chk(\A j \in 1..Len(x.lv) : Hx(vals[i], x.lv[j].o, x.lv[j].n) = inRef(x.lv[j].o, x.lv[j].n), P(p) \o ":value")
            \o (IF out THEN Chk(run.refa[i] = 0, P(p) \o ":copy-alignment") ELSE <<>>)
       ELSE Chk(LeavesIn(run.x, run.f, run.stk, loc.pc, x.lv, vals[i]), P(p) \o ":value")
            \o (IF out /\ Extends /\ NarrowInt(x.t)
                THEN Chk(PieceBytes(run.x, run.f, run.stk, loc.pc[1], 0, 8) = ExtendLp(x.t, vals[i]), P(p) \o ":extension") ELSE <<>>)
            \o (IF out THEN Chk(Boxed(run.f, loc.pc), P(p) \o ":nan-box") ELSE <<>>))

State(p, run) ==
  Chk(run.spa = 0, P(p) \o ":entry-alignment") \o Chk(run.spd = 0, P(p) \o ":stack-pointer") \o Chk(run.cs = <<>>, P(p) \o ":registers")
  \o Chk(run.below = 0, P(p) \o ":below-stack") \o Chk(run.misal = 0, P(p) \o ":sp-alignment") \o Chk(run.badj = 0, P(p) \o ":landing-pad")

Body(r) == IF r.sz > 8 THEN r.sz ELSE 8
Buffer(p, run, r) ==
  Chk(run.guard = 0, P(p) \o ":outside") \o
  (IF run.rvnull = 1 THEN <<>>
   ELSE LET at(o, n) == IF r.mem THEN Hx(run.mr, o, n) ELSE Gather(run.rx, run.rf, "", r.pc, o, n)
        IN Chk(\A i \in 1..Len(r.lv) : Hx(run.buf, r.lv[i].o, r.lv[i].n) = at(r.lv[i].o, r.lv[i].n), P(p) \o ":result")
           \o (IF NarrowInt(r.t) THEN Chk(run.buf = WidenP(r.t, run.buf), P(p) \o ":widening")
               ELSE Chk(Hx(run.buf, r.sz, Body(r) - r.sz) = Pattern(Body(r) - r.sz), P(p) \o ":size")))

CallRun(p, o, run, xs, r, A) ==
  Chk(run.ent = 1, P(p) \o ":entered")
  \o (IF run.ent # 1 THEN <<>>
      ELSE Args(p, run, xs, A, o.av, TRUE)
           \o (IF r.mem THEN Chk(run.hideq = 1, P(p) \o ":hidden") \o Chk(run.hida = 0, P(p) \o ":hidden-align") \o Chk(run.hidw = 1, P(p) \o ":hidden-storage") ELSE <<>>)
           \o Buffer(p, run, r)
           \o All(Len(xs), LAMBDA i : Chk(run.av2[i] = o.av[i], P(p) \o ":argument-object"))
           \o Chk(run.avec = 1, P(p) \o ":argument-vector") \o Chk(run.cifeq = 1, P(p) \o ":cif")
           \o (IF p.mode = "go" THEN Chk(run.chain = 1, P(p) \o ":chain") ELSE <<>>)
           \o State(p, run))

CloRun(p, run, xs, r, A) ==
  LET at(o, n) == IF r.mem THEN Hx(run.mem, o, n) ELSE Gather(run.rx, run.rf, "", r.pc, o, n)
  IN Chk(run.cnt = 1, P(p) \o ":invoked-once")
     \o (IF run.cnt = 0 THEN <<>>
         ELSE Chk(run.cifok = 1, P(p) \o ":interface") \o Chk(run.udok = 1, P(p) \o ":user-data") \o Chk(run.ala = 0, P(p) \o ":argument-alignment")
              \o Args(p, run, xs, A, run.av, FALSE)
              \o Chk(run.rvok = 1, P(p) \o ":result-storage")
              \o (IF run.rvok # 1 THEN <<>>
                  ELSE Chk(run.guard = 0, P(p) \o ":outside")
                       \o Chk(\A i \in 1..Len(r.lv) : Hx(run.rv, r.lv[i].o, r.lv[i].n) = at(r.lv[i].o, r.lv[i].n), P(p) \o ":result")
                       \o (IF r.mem THEN <<>> ELSE Chk(Boxed(run.rf, r.pc), P(p) \o ":nan-box"))
                       \o (IF Extends /\ NarrowInt(r.t) THEN Chk(Hx(run.rx, 0, 8) = ExtendLp(r.t, run.rv), P(p) \o ":extension") ELSE <<>>))
              \o State(p, run) \o Chk(run.cifeq = 1, P(p) \o ":cif"))

Sizes(p, o, xs, r) ==
  Chk(o.tsz[1] = (IF r.t.k = "v" THEN 1 ELSE r.sz) /\ o.tal[1] = r.al
      /\ \A i \in 1..Len(xs) : o.tsz[i + 1] = xs[i].sz /\ o.tal[i + 1] = xs[i].al, P(p) \o ":layout")
Reasons(p, o) ==
  IF "crash" \in DOMAIN o THEN <<P(p) \o ":crash">>
  ELSE IF o.ok # 1 THEN <<P(p) \o ":not-prepared">>
  ELSE LET xs == InfosP(p.args)
           r == RetInfoP(p.ret)
           A == AssignP(p.abi, p.fx, r.mem, xs)
       IN Sizes(p, o, xs, r)
          \o (IF p.mode = "clo" THEN Chk(o.flush = 1, P(p) \o ":instruction-cache") ELSE <<>>)
          \o All(Len(o.runs), LAMBDA j : IF IsClo(p.mode) THEN CloRun(p, o.runs[j], xs, r, A) ELSE CallRun(p, o, o.runs[j], xs, r, A))

Init == l = 0 /\ bad = <<>>
Next == l < Len(Trace) /\ l' = l + 1 /\ bad' = Reasons(Trace[l'].p, Trace[l'].o)
Spec == Init /\ [][Next]_<<l, bad>>
Report == bad = <<>> \/ PrintT("REJECT " \o ToJson([i |-> Trace[l].i, why |-> bad]))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
