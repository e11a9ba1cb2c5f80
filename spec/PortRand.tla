------------------------------- MODULE PortRand -------------------------------
(* Random signatures. *)
EXTENDS Ports, FiniteSets, Randomization
CONSTANTS N, MaxArgs, Abi, Mode
VARIABLES n, p
Rn(S) == RandomElement(S)
K(x) == [k |-> x]
Bases == IF Abi = "win64" THEN Kinds64 \ (ComplexKinds \cup {"ld"}) ELSE Kinds64
RECURSIVE RandType(_)
RandType(depth) ==
  LET x == Rn(1..10) IN
  IF depth = 0 \/ x <= 5 THEN K(Rn(IF x <= 2 THEN IntKinds ELSE IF x = 3 THEN {"f", "d"} ELSE Bases))
  ELSE [k |-> "st", e |-> [i \in 1..Rn(1..(IF x = 10 THEN 9 ELSE 3)) |-> RandType(depth - 1)]]
VarArg(t) == IF VarOk(t) THEN t ELSE K(IF t.k = "f" THEN "d" ELSE "s32")
Case(z) ==
  LET m == Rn(0..Rn(1..MaxArgs))
      f == IF m > 0 /\ Rn(1..4) = 1 THEN Rn(1..m) ELSE -1
      as == [i \in 1..m |-> RandType(2)]
  IN PlanP(Abi, Mode, f, IF Rn(1..8) = 1 THEN K("v") ELSE RandType(2), [i \in 1..m |-> IF f >= 0 /\ i > f THEN VarArg(as[i]) ELSE as[i]])
Init == n = 0 /\ p = <<>>
Next == n < N /\ n' = n + 1 /\ p' = Case(n)
Spec == Init /\ [][Next]_<<n, p>>
EmitCase == n = 0 \/ p.stb > 30000 \/ p.rsz > 6000 \/ EmitP(n, p)
=============================================================================
