------------------------------- MODULE AbiPlan -------------------------------
(***************************************************************************)
(* What a conformance case is, and what the (dumb) driver has to be told   *)
(* about it.  Everything here is computed by the specification: the driver *)
(* makes no ABI decision of its own.                                       *)
(***************************************************************************)
EXTENDS SysV, MsX64, Json

St(fs) == [k |-> "st", e |-> fs]
K(x)   == [k |-> x]

(***************************************************************************)
(* Raw argument areas: 8-byte words; structures and complex values are     *)
(* passed as a pointer, everything else in RoundUp(size,8)/8 words.        *)
(* Java raw areas: every value takes one word except 64-bit integers and   *)
(* doubles, which take two.                                                *)
(***************************************************************************)
RawIndirect(t) == IsStruct(t) \/ t.k \in ComplexKinds
RawWords(t)  == IF RawIndirect(t) THEN 1 ELSE RoundUp(SizeOf(t), 8) \div 8
JavaWords(t) == IF t.k \in {"u64", "s64", "d"} THEN 2 ELSE 1
Words(mode, t) == IF mode \in {"jraw", "jrawclo"} THEN JavaWords(t) ELSE RawWords(t)
RawOffsets(mode, args) ==
  FoldLeft(LAMBDA acc, t : [w |-> acc.w + Words(mode, t), o |-> Append(acc.o, acc.w)],
           [w |-> 0, o |-> <<>>], args)
IsRawMode(m) == m \in {"raw", "jraw", "rawclo", "jrawclo"}

IsMs(abi) == abi # "unix64"

RetInfo(t) == LET c == Classify(t)
                  l == Lay(t)
              IN [t |-> t, c |-> c, sz |-> IF t.k = "v" THEN 0 ELSE l.sz, al |-> l.al, lv |-> l.lv,
                  mem |-> c = <<"MEM">>, msm |-> MsHidden(t), x87 |-> RetX87(c)]

\* xs: Info of the arguments, r: RetInfo of the result
PlanI(abi, mode, fx, r, xs) ==
  LET ms  == IsMs(abi)
      n   == Len(xs)
      hid == IF ms THEN r.msm ELSE r.mem
      args == [i \in 1..n |-> xs[i].t]
      ro  == RawOffsets(mode, args)
      b2i(b) == IF b THEN 1 ELSE 0
  IN [ abi |-> abi, mode |-> mode, fx |-> fx, ret |-> r.t, args |-> args,
       rm  |-> b2i(hid), rsz |-> r.sz, ral |-> r.al,
       x87 |-> IF ms THEN 0 ELSE r.x87,
       stb |-> IF ms THEN 8 * (n + b2i(hid))
               ELSE FoldLeft(AStep, AInit(hid), xs).st,
       sz  |-> [i \in 1..n |-> xs[i].sz],
       al  |-> [i \in 1..n |-> xs[i].al],
       br  |-> [i \in 1..n |-> b2i(ms /\ xs[i].sz \notin {1, 2, 4, 8})],
       ro  |-> IF IsRawMode(mode) THEN ro.o ELSE <<>>,
       rw  |-> IF IsRawMode(mode) THEN ro.w ELSE 0,
       ri  |-> [i \in 1..n |-> b2i(IsRawMode(mode) /\ RawIndirect(args[i]))] ]
Plan(abi, mode, fx, ret, args) == PlanI(abi, mode, fx, RetInfo(ret), Infos(args))

Emit(p) == PrintT("PLAN " \o ToJson(p))
=============================================================================
