------------------------------- MODULE I386Rand -------------------------------
(* Random signatures for the 32-bit conventions. *)
EXTENDS I386, FiniteSets, Randomization
CONSTANTS N, MaxArgs, Mode
VARIABLES n, p
R(S) == RandomElement(S)
K(x) == [k |-> x]
Plain == IntKinds \cup {"f", "d", "ld"}
Bases == IF IsRaw(Mode) THEN (IF Mode = "rawclo" THEN Plain \ {"ld"} ELSE Plain) ELSE Plain \cup ComplexKinds
RECURSIVE RandType(_)
RandType(depth) ==
  LET x == R(1..10) IN
  IF IsRaw(Mode) \/ depth = 0 \/ x <= 6 THEN K(R(IF x <= 3 THEN IntKinds ELSE Bases))
  ELSE [k |-> "st", e |-> [i \in 1..R(1..(IF x = 10 THEN 9 ELSE 3)) |-> RandType(depth - 1)]]
RetKinds == Plain \cup ComplexKinds \cup {"v"}
RECURSIVE RandRet(_)
RandRet(depth) == IF depth = 0 \/ R(1..4) > 1 THEN K(R(IF depth = 2 THEN RetKinds ELSE RetKinds \ {"v"}))
                  ELSE [k |-> "st", e |-> [i \in 1..R(1..5) |-> RandRet(depth - 1)]]
Case(z) == Plan32(R(IF Mode = "rawclo" THEN {"sysv", "thiscall"} ELSE Conventions), Mode, RandRet(2),
                  [i \in 1..R(0..R(1..MaxArgs)) |-> RandType(2)])
Init == n = 0 /\ p = <<>>
Next == n < N /\ n' = n + 1 /\ p' = Case(n)
Spec == Init /\ [][Next]_<<n, p>>
EmitCase == n = 0 \/ p.stb > 30000 \/ p.rsz > 6000 \/ Emit32(n, p)
=============================================================================
