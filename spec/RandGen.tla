------------------------------- MODULE RandGen -------------------------------
(***************************************************************************)
(* Random signatures: up to MaxArgs arguments drawn from scalars, complex  *)
(* values and structures of random shape and depth.                        *)
(***************************************************************************)
EXTENDS AbiPlan, FiniteSets, Randomization

CONSTANTS N, MaxArgs, Mode, Abi, Base

VARIABLES n, p
R(S) == RandomElement(S)
BaseJava == {"s8", "s16", "s32", "s64", "u8", "u16", "u32", "u64", "p", "f", "d"}
BaseAll == BaseJava \cup {"ld", "cf", "cd", "cld", "cs8", "cs16", "cs32", "cs64"}
Bases == IF Base = "java" THEN BaseJava ELSE BaseAll

RECURSIVE RandType(_)
RandType(depth) ==
  LET x == R(1..10) IN
  IF Base = "java" \/ depth = 0 \/ x <= 5 THEN K(R(Bases))
  ELSE IF x = 6
  THEN LET t == RandType(depth - 1)
           l == Lay(t)
           al == Max2(l.al, R({1, 2, 4, 8, 16}))
       IN [k |-> "un", e |-> <<t>>, sz |-> RoundUp(l.sz, al), al |-> al]
  ELSE LET m == R(1..(IF x = 10 THEN 9 ELSE 4))
           same == R(BOOLEAN)
           k0 == K(R(Bases \ {"cld"}))
       IN St([i \in 1..m |-> IF same /\ x # 9 THEN k0 ELSE RandType(depth - 1)])

RandRet(z) == IF R(1..8) = 1 THEN K("v") ELSE RandType(3)
Case(z) ==
  LET args == [i \in 1..R(0..MaxArgs) |-> RandType(2)]
      ret == RandRet(z)
      okr == IF MsSupported(Abi, ret, args) THEN ret ELSE K("d")
      promoted(t) == t.k \notin {"u8", "s8", "u16", "s16", "f"}
      lastnp == FoldLeft(LAMBDA acc, i : IF promoted(args[i]) THEN acc ELSE i, 0, [i \in 1..Len(args) |-> i])
      fx == IF Mode = "call" /\ Len(args) > 0 /\ R(1..3) = 1
            THEN R((IF lastnp > 1 THEN lastnp ELSE 1)..Len(args)) ELSE -1
  IN Plan(Abi, Mode, fx, okr, args)
Small(q) == q.rsz <= 6000 /\ q.stb <= 30000 /\ \A i \in 1..Len(q.sz) : q.sz[i] <= 6000

Init == n = 0 /\ p = <<>>
Next == n < N /\ n' = n + 1 /\ p' = Case(n)
Spec == Init /\ [][Next]_<<n, p>>
EmitCase == n = 0 \/ ~Small(p) \/ Emit([key |-> n, p |-> p])
=============================================================================
