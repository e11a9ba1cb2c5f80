-------------------------------- MODULE I386 --------------------------------
(***************************************************************************)
(* The 32-bit x86 conventions on GNU/Linux: sysv (and mscdecl, which       *)
(* differs in who pops the hidden result pointer), stdcall, thiscall and   *)
(* fastcall.  Arguments are 4-byte slots on the stack in order; thiscall   *)
(* passes one and fastcall two integers in registers (ECX, EDX).  Results  *)
(* are in EAX, EDX:EAX, ST0 or behind a hidden pointer.                    *)
(***************************************************************************)
EXTENDS Layout, Json

Sc2(sz, c) == Sc(2 * sz, 4, <<Leaf(0, sz, c), Leaf(sz, sz, c)>>)
Scalar32 ==
  [Scalar EXCEPT !["p"] = One(4, "I"),
     !["u64"] = Sc(8, 4, <<Leaf(0, 8, "I")>>), !["s64"] = Sc(8, 4, <<Leaf(0, 8, "I")>>),
     !["d"]   = Sc(8, 4, <<Leaf(0, 8, "S")>>),
     !["ld"]  = Sc(12, 4, <<Leaf(0, 10, "L")>>),
     !["cd"]  = Sc2(8, "S"), !["cs64"] = Sc2(8, "I"),
     !["cld"] = Sc(24, 4, <<Leaf(0, 10, "L"), Leaf(12, 10, "L")>>)]
Lay32(t) == LayT(Scalar32, t)

Conventions == {"sysv", "mscdecl", "stdcall", "thiscall", "fastcall"}
NRegs(abi) == CASE abi = "fastcall" -> 2 [] abi = "thiscall" -> 1 [] OTHER -> 0
Words4(n) == RoundUp(n, 4) \div 4

\* the one scalar a structure consists of, if it does
RECURSIVE Core(_)
Core(t) == IF t.k = "st" /\ Len(t.e) = 1 THEN Core(t.e[1]) ELSE t
\* an integer that may travel in a register
RegKind(t) == t.k \in IntKinds /\ Scalar32[t.k].sz <= 4
\* register slots an argument uses up: integers and structures use as many as they have words, even where they
\* themselves go to the stack; floating-point and complex values use none
Uses(t) == CASE t.k = "st" -> IF Core(t).k \in {"f", "d", "ld"} \cup ComplexKinds THEN 0 ELSE Words4(Lay32(t).sz)
             [] t.k \in IntKinds -> Words4(Scalar32[t.k].sz)
             [] OTHER -> 0
Info32(t) == LET l == Lay32(t) IN [t |-> t, sz |-> l.sz, al |-> l.al, lv |-> l.lv, reg |-> RegKind(t), uses |-> Uses(t),
                                   wrap |-> t.k = "st" /\ Core(t).k # "st" /\ Uses(t) = 0]
Infos32(ts) == [i \in DOMAIN ts |-> Info32(ts[i])]

\* results: "V" none, "A" EAX, "AD" EDX:EAX, "F" ST0, "M" memory
Ret32(t) ==
  CASE t.k = "v" -> "V"
    [] t.k = "st" \/ t.k \in {"cd", "cld", "cs64"} -> "M"
    [] t.k \in {"f", "d", "ld"} -> "F"
    [] t.k \in {"u64", "s64", "cf", "cs32"} -> "AD"
    [] OTHER -> "A"
RetInfo32(t) == LET l == Lay32(t) IN [t |-> t, c |-> Ret32(t), sz |-> IF t.k = "v" THEN 0 ELSE l.sz, al |-> l.al,
                                      lv |-> l.lv, mem |-> Ret32(t) = "M"]

(***************************************************************************)
(* The assignment machine: r register slots used up, st stack bytes.       *)
(* und: a structure wrapping one floating-point value has been passed with *)
(* registers left; compilers disagree about what follows.                  *)
(***************************************************************************)
Min2(a, b) == IF a < b THEN a ELSE b
BInit(abi, hid) == [r |-> IF hid /\ NRegs(abi) > 0 THEN 1 ELSE 0, st |-> IF hid /\ NRegs(abi) = 0 THEN 4 ELSE 0, und |-> FALSE, bad |-> FALSE]
BLoc(abi, b, x) == IF x.reg /\ b.r < NRegs(abi) THEN [reg |-> TRUE, n |-> b.r] ELSE [reg |-> FALSE, n |-> b.st]
BStep(abi, b, x) ==
  LET l == BLoc(abi, b, x)
  IN [r   |-> Min2(NRegs(abi), b.r + x.uses),
      st  |-> IF l.reg THEN b.st ELSE b.st + 4 * Words4(x.sz),
      und |-> b.und \/ (x.wrap /\ b.r < NRegs(abi)),
      bad |-> b.bad \/ (b.und /\ x.reg)]
Assign32(abi, hid, xs) ==
  FoldLeft(LAMBDA acc, x : [a |-> BStep(abi, acc.a, x), loc |-> Append(acc.loc, BLoc(abi, acc.a, x))],
           [a |-> BInit(abi, hid), loc |-> <<>>], xs)
\* bytes the callee removes from the stack when it returns
Pops(abi, hid, st) == CASE abi = "sysv" -> IF hid THEN 4 ELSE 0 [] abi = "mscdecl" -> 0 [] OTHER -> st

(***************************************************************************)
(* Raw areas: 4-byte words, no structures or complex values here           *)
(***************************************************************************)
RawOffs32(xs) == FoldLeft(LAMBDA acc, x : [w |-> acc.w + Words4(x.sz), o |-> Append(acc.o, acc.w)], [w |-> 0, o |-> <<>>], xs)
IsRaw(m) == m \in {"raw", "rawclo"}
RawTypes(ts) == \A i \in DOMAIN ts : ts[i].k # "st" /\ ts[i].k \notin ComplexKinds
\* what each entry point supports
Supported32(abi, mode, ret, ts) ==
  /\ mode = "raw" => RawTypes(ts)
  /\ mode = "rawclo" => abi \in {"sysv", "thiscall"} /\ RawTypes(ts) /\ \A i \in DOMAIN ts : ts[i].k # "ld"

\* a raw thiscall closure takes the first word from the register
FirstInReg(p) == p.mode = "rawclo" /\ p.abi = "thiscall" => p.rm = 1 \/ (p.args # <<>> /\ RegKind(p.args[1]))

b2i(b) == IF b THEN 1 ELSE 0
Plan32I(abi, mode, r, xs) ==
  LET A == Assign32(abi, r.mem, xs)
      n == Len(xs)
      ro == RawOffs32(xs)
  IN [ abi |-> abi, mode |-> mode, ret |-> r.t, args |-> [i \in 1..n |-> xs[i].t],
       rm |-> b2i(r.mem), hr |-> b2i(r.mem /\ NRegs(abi) > 0), cr |-> b2i(NRegs(abi) > 0),
       rsz |-> r.sz, ral |-> r.al, x87 |-> b2i(r.c = "F"),
       stb |-> A.a.st, pops |-> Pops(abi, r.mem, A.a.st), und |-> A.a.bad,
       sz |-> [i \in 1..n |-> xs[i].sz], al |-> [i \in 1..n |-> xs[i].al],
       ro |-> IF IsRaw(mode) THEN ro.o ELSE <<>>, rw |-> IF IsRaw(mode) THEN ro.w ELSE 0 ]
Plan32(abi, mode, ret, args) == Plan32I(abi, mode, RetInfo32(ret), Infos32(args))
Emit32(key, p) == p.und \/ ~Supported32(p.abi, p.mode, p.ret, p.args) \/ ~FirstInReg(p)
                  \/ PrintT("PLAN " \o ToJson([key |-> key, p |-> p]))
=============================================================================
