-------------------------------- MODULE SysV --------------------------------
(***************************************************************************)
(* Argument and result passing of the System V x86-64 psABI: structure     *)
(* classification from the flattened leaves, the assignment machine that   *)
(* walks over the arguments, and the result locations.                     *)
(***************************************************************************)
EXTENDS Layout

MaxG == 6
MaxS == 8

Merge(a, b) ==
  IF a = b THEN a
  ELSE IF a = "NO" THEN b ELSE IF b = "NO" THEN a
  ELSE IF "MEM" \in {a, b} THEN "MEM"
  ELSE IF "I" \in {a, b} THEN "I"
  ELSE IF {a, b} \cap {"X87", "X87UP"} # {} THEN "MEM"
  ELSE "S"

\* class a leaf contributes to eightbyte j (0-based)
LeafClass(lf, j) ==
  IF lf.c = "L"
  THEN IF lf.o \div 8 = j THEN "X87" ELSE IF lf.o \div 8 + 1 = j THEN "X87UP" ELSE "NO"
  ELSE IF lf.o \div 8 <= j /\ j <= (lf.o + lf.n - 1) \div 8 THEN lf.c ELSE "NO"

EightbyteClass(lv, j) == FoldLeft(LAMBDA acc, lf : Merge(acc, LeafClass(lf, j)), "NO", lv)

\* <<>> for void; <<"MEM">>; <<"X87","X87UP">>; <<"CX87">>; or one or two of "I", "S"
Classify(t) ==
  CASE t.k = "v"   -> <<>>
    [] t.k = "cld" -> <<"CX87">>
    [] OTHER ->
       LET l == Lay(t) IN
       IF l.sz > 16 THEN <<"MEM">>
       ELSE LET n  == RoundUp(l.sz, 8) \div 8
                cs == [j \in 1..n |-> EightbyteClass(l.lv, j - 1)]
            IN IF \E j \in 1..n : cs[j] = "MEM" \/ (cs[j] = "X87UP" /\ (j = 1 \/ cs[j-1] # "X87"))
               THEN <<"MEM">> ELSE SelectSeq(cs, LAMBDA c : c # "NO")     \* only the last can be

ArgClass(t) == LET c == Classify(t) IN
  IF \E i \in 1..Len(c) : c[i] \in {"MEM", "X87", "X87UP", "CX87"} THEN <<"MEM">> ELSE c

CountOf(c, x) == Len(SelectSeq(c, LAMBDA y : y = x))

(***************************************************************************)
(* Everything the assignment machine needs to know about a type.           *)
(***************************************************************************)
Info(t) == LET l == Lay(t)
               c == ArgClass(t)
           IN [t |-> t, sz |-> l.sz, al |-> l.al, lv |-> l.lv, c |-> c, mem |-> c = <<"MEM">>,
               ni |-> CountOf(c, "I"), ns |-> CountOf(c, "S")]
Infos(ts) == [i \in DOMAIN ts |-> Info(ts[i])]

(***************************************************************************)
(* The assignment machine: g general and s vector registers used so far,   *)
(* st bytes of stack argument area used so far.                            *)
(***************************************************************************)
AInit(hidden) == [g |-> IF hidden THEN 1 ELSE 0, s |-> 0, st |-> 0]

GoesToMemory(a, x) == x.mem \/ a.g + x.ni > MaxG \/ a.s + x.ns > MaxS

StackOff(a, x) == RoundUp(a.st, Max2(8, x.al))

AStep(a, x) ==
  IF GoesToMemory(a, x)
  THEN [a EXCEPT !.st = RoundUp(StackOff(a, x) + x.sz, 8)]
  ELSE [a EXCEPT !.g = @ + x.ni, !.s = @ + x.ns]

\* Where the argument goes: [mem, off] or [mem, pc] with pc[j] = <<"I"|"S", register index>>
Locate(a, x) ==
  IF GoesToMemory(a, x)
  THEN [mem |-> TRUE, off |-> StackOff(a, x), pc |-> <<>>]
  ELSE LET idx(j) == IF x.c[j] = "I" THEN a.g + CountOf(SubSeq(x.c, 1, j - 1), "I")
                                     ELSE a.s + CountOf(SubSeq(x.c, 1, j - 1), "S")
       IN [mem |-> FALSE, off |-> 0, pc |-> [j \in 1..Len(x.c) |-> <<x.c[j], idx(j)>>]]

RetInMemory(t) == Classify(t) = <<"MEM">>

\* The whole signature: sequence of locations, and the final machine state
Assign(hidden, xs) ==
  FoldLeft(LAMBDA acc, x : [a |-> AStep(acc.a, x), loc |-> Append(acc.loc, Locate(acc.a, x))],
           [a |-> AInit(hidden), loc |-> <<>>], xs)

\* Result pieces: one register name per eightbyte
RetPieces(c) ==
  [j \in 1..Len(c) |->
     IF c[j] = "I" THEN (IF j = 2 /\ c[1] = "I" THEN "RDX" ELSE "RAX")
     ELSE IF c[j] = "S" THEN (IF j = 2 /\ c[1] = "S" THEN "XMM1" ELSE "XMM0")
     ELSE c[j]]
\* number of x87 values returned on the register stack
RetX87(c) == IF c = <<"CX87">> THEN 2 ELSE IF c # <<>> /\ c[1] = "X87" THEN 1 ELSE 0
=============================================================================
