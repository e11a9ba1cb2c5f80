-------------------------------- MODULE Ports --------------------------------
(***************************************************************************)
(* Argument and result passing of the LP64 little-endian conventions of    *)
(* other processors:                                                       *)
(*   a64   AAPCS64 (sysv), and Microsoft's variant of it (win64)           *)
(*   rv64  the RISC-V LP64D calling convention                             *)
(*   la64  the LoongArch LP64D calling convention                          *)
(* Values are laid out as in Layout, with a 16-byte IEEE quad as long      *)
(* double (leaf class "Q").                                                *)
(*                                                                         *)
(* A location is [ref, pc]: pieces [w, n, o, c] of the value (or of the    *)
(* pointer to a copy of it, if ref): bytes o..o+c-1 are the low bytes of   *)
(* argument register n of kind w = "x" (general) or "v" (floating-point),  *)
(* or are on the stack at offset n (w = "s").                              *)
(***************************************************************************)
EXTENDS Layout, Json
CONSTANT Arch

\* a pointer is no integer to the rules for structures of LP64D
Scalar64 == [Scalar EXCEPT !["ld"] = One(16, "Q"), !["cld"] = Pair(16, "Q"), !["p"] = One(8, "P")]
Lay64(t) == LayT(Scalar64, t)

MaxX == 8
MaxV == 8
Pc(w, n, o, c) == [w |-> w, n |-> n, o |-> o, c |-> c]
Loc(ref, pc) == [ref |-> ref, pc |-> pc]
Words8(n) == RoundUp(n, 8) \div 8
IsFp(lf) == lf.c \in {"S", "Q"}

\* a homogeneous floating-point aggregate (or a single number): one to four members of one floating-point type
IsHfa(l) == Len(l.lv) \in 1..4 /\ (\A i \in 1..Len(l.lv) : IsFp(l.lv[i]) /\ l.lv[i].n = l.lv[1].n) /\ l.sz = Len(l.lv) * l.lv[1].n
\* the RISC-V and LoongArch rule: one or two floating-point members, or one and an integer
FpPattern(l) == Len(l.lv) \in 1..2 /\ (\A i \in 1..Len(l.lv) : l.lv[i].c \in {"S", "I"}) /\ (\E i \in 1..Len(l.lv) : l.lv[i].c = "S")
CountC(l, c) == Len(SelectSeq(l.lv, LAMBDA x : x.c = c))

InfoP(t) ==
  LET l == Lay64(t)
      fp == IF t.k = "v" THEN FALSE ELSE IF Arch = "a64" THEN IsHfa(l) ELSE FpPattern(l)
  IN [t |-> t, sz |-> l.sz, al |-> l.al, lv |-> l.lv, fp |-> fp,
      nv |-> IF ~fp THEN 0 ELSE IF Arch = "a64" THEN Len(l.lv) ELSE CountC(l, "S"),
      nx |-> IF fp /\ Arch # "a64" THEN CountC(l, "I") ELSE 0,
      comp |-> t.k = "st" \/ t.k \in ComplexKinds]
InfosP(ts) == [i \in DOMAIN ts |-> InfoP(ts[i])]

(***************************************************************************)
(* The assignment machine: g general and s floating-point registers used,  *)
(* st stack bytes; und: the documents do not settle what happens.          *)
(***************************************************************************)
PInit(hid) == [g |-> IF hid /\ Arch # "a64" THEN 1 ELSE 0, s |-> 0, st |-> 0, und |-> FALSE]
R(b, loc) == [b |-> b, loc |-> loc]
\* on the stack at the next offset aligned to al (at least a word)
OnStack(b, ref, sz, al) ==
  LET o == RoundUp(b.st, Max2(8, al))
  IN R([b EXCEPT !.st = RoundUp(o + sz, 8)], Loc(ref, <<Pc("s", o, 0, sz)>>))
\* the first words in general registers from g on
InX(b, ref, sz) == R([b EXCEPT !.g = @ + Words8(sz)], Loc(ref, [j \in 1..Words8(sz) |-> Pc("x", b.g + j - 1, 8 * (j - 1), IF 8 * j <= sz THEN 8 ELSE sz - 8 * (j - 1))]))

\* AAPCS64, stages B and C
StepA64(ms, b, x) ==                       \* ms: a variadic function of the Microsoft convention
  LET fp == x.fp /\ ~ms
      ref == x.comp /\ ~fp /\ x.sz > 16
      sz == IF ref THEN 8 ELSE x.sz
  IN CASE fp /\ b.s + x.nv <= MaxV ->
            R([b EXCEPT !.s = @ + x.nv], Loc(FALSE, [j \in 1..x.nv |-> Pc("v", b.s + j - 1, x.lv[j].o, x.lv[j].n)]))
       [] fp -> OnStack([b EXCEPT !.s = MaxV], FALSE, x.sz, x.al)
       [] ~fp /\ b.g + Words8(sz) <= MaxX -> InX(b, ref, sz)
       [] OTHER -> OnStack([b EXCEPT !.g = MaxX, !.und = @ \/ (ms /\ b.g < MaxX)], ref, sz, IF ref THEN 8 ELSE x.al)

\* LP64D, the integer calling convention
StepInt(var, b, x) ==
  LET ref == x.sz > 16
      sz == IF ref THEN 8 ELSE x.sz
      al == IF ref THEN 8 ELSE x.al
      g0 == IF var /\ al = 16 THEN RoundUp(b.g, 2) ELSE b.g
      b0 == [b EXCEPT !.g = g0]
  IN CASE sz = 0 -> R(b, Loc(FALSE, <<>>))
       [] g0 + Words8(sz) <= MaxX -> InX(b0, ref, sz)
       [] g0 = MaxX - 1 -> R([b0 EXCEPT !.g = MaxX, !.st = 8], Loc(ref, <<Pc("x", g0, 0, 8), Pc("s", 0, 8, sz - 8)>>))
       [] OTHER -> OnStack(b0, ref, sz, al)
StepLp(var, b, x) ==
  IF x.fp /\ ~var /\ b.s + x.nv <= MaxV /\ b.g + x.nx <= MaxX
  THEN LET idx(j, c, from) == from + Len(SelectSeq(SubSeq(x.lv, 1, j - 1), LAMBDA y : y.c = c))
       IN R([b EXCEPT !.s = @ + x.nv, !.g = @ + x.nx],
            Loc(FALSE, [j \in 1..Len(x.lv) |-> IF x.lv[j].c = "S" THEN Pc("v", idx(j, "S", b.s), x.lv[j].o, x.lv[j].n)
                                              ELSE Pc("x", idx(j, "I", b.g), x.lv[j].o, x.lv[j].n)]))
  ELSE StepInt(var, b, x)

\* fx: number of named arguments, -1 if the function is not variadic; i: position of the argument
StepP(abi, fx, i, b, x) == IF Arch = "a64" THEN StepA64(abi = "win64" /\ fx >= 0, b, x) ELSE StepLp(fx >= 0 /\ i > fx, b, x)
AssignP(abi, fx, hid, xs) ==
  FoldLeft(LAMBDA acc, x : LET r == StepP(abi, fx, Len(acc.loc) + 1, acc.b, x) IN [b |-> r.b, loc |-> Append(acc.loc, r.loc)],
           [b |-> PInit(hid), loc |-> <<>>], xs)

(***************************************************************************)
(* Results: in memory, or the pieces of the first argument registers.      *)
(***************************************************************************)
RetMem(x) == IF Arch = "a64" THEN ~x.fp /\ x.comp /\ x.sz > 16 ELSE ~x.fp /\ x.sz > 16
RetInfoP(t) ==
  LET x == InfoP(t) IN
  IF t.k = "v" THEN [t |-> t, sz |-> 0, al |-> 1, lv |-> <<>>, mem |-> FALSE, pc |-> <<>>]
  ELSE [t |-> t, sz |-> x.sz, al |-> x.al, lv |-> x.lv, mem |-> RetMem(x),
        pc |-> IF RetMem(x) THEN <<>> ELSE (StepP("sysv", -1, 1, PInit(FALSE), x)).loc.pc]

(***************************************************************************)
(* Integers narrower than a register                                       *)
(***************************************************************************)
NarrowInt(t) == t.k \in IntKinds /\ Scalar64[t.k].sz < 8
\* as libffi widens results: to a word, by the type
WidenP(t, h) == LET z == Scalar64[t.k].sz IN Hx(h, 0, z) \o ExtBytes(Hx(h, 0, z), z, 8, t.k \in SignedKinds)
\* as LP64D passes them: 32-bit quantities sign-extended, smaller ones by their type
ExtendLp(t, h) == LET z == Scalar64[t.k].sz IN Hx(h, 0, z) \o ExtBytes(Hx(h, 0, z), z, 8, t.k \in SignedKinds \cup {"u32"})
Extends == Arch # "a64"
\* an fp register narrower than the number in it is padded with ones
NanBox == Arch = "rv64"

\* what libffi supports here
Kinds64 == IntKinds \cup {"f", "d", "ld"} \cup (IF Arch = "a64" THEN ComplexKinds ELSE {})
RECURSIVE HasKind(_, _)
HasKind(t, ks) == IF t.k = "st" THEN \E i \in DOMAIN t.e : HasKind(t.e[i], ks) ELSE t.k \in ks
SupportedP(abi, ret, ts) ==
  abi = "win64" => \A t \in {ret} \cup {ts[i] : i \in DOMAIN ts} : ~HasKind(t, ComplexKinds \cup {"ld"})
\* default promotions: what a variadic argument may be
VarOk(t) == t.k \notin {"u8", "s8", "u16", "s16", "f"}

b2i(b) == IF b THEN 1 ELSE 0
RefAt(loc) == IF ~loc.ref THEN "-" ELSE (IF loc.pc[1].w = "x" THEN "x" ELSE "s") \o ToString(loc.pc[1].n)
PlanPI(abi, mode, fx, r, xs) ==
  LET A == AssignP(abi, fx, r.mem, xs)
      n == Len(xs)
  IN [ arch |-> Arch, abi |-> abi, mode |-> mode, fx |-> fx, ret |-> r.t, args |-> [i \in 1..n |-> xs[i].t],
       rm |-> b2i(r.mem), rsz |-> r.sz, ral |-> r.al, stb |-> A.b.st, und |-> A.b.und,
       sz |-> [i \in 1..n |-> xs[i].sz], al |-> [i \in 1..n |-> xs[i].al], ref |-> [i \in 1..n |-> RefAt(A.loc[i])] ]
PlanP(abi, mode, fx, ret, args) == PlanPI(abi, mode, fx, RetInfoP(ret), InfosP(args))
EmitP(key, p) == p.und \/ ~SupportedP(p.abi, p.ret, p.args) \/ (p.fx >= 0 /\ \E i \in (p.fx + 1)..Len(p.args) : ~VarOk(p.args[i]))
                 \/ PrintT("PLAN " \o ToJson([key |-> key, p |-> p]))
=============================================================================
