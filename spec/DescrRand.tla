------------------------------ MODULE DescrRand ------------------------------
(***************************************************************************)
(* Random worlds (many nodes, long member lists, heavy sharing, large      *)
(* sizes) and random request histories over them, including closure        *)
(* preparation with every ABI number.                                      *)
(***************************************************************************)
EXTENDS Descr, Json, Randomization

CONSTANTS N, MaxNodes, MaxMem, HistLen
VARIABLES n, c
R(S) == RandomElement(S)
Abis == {0, 1, 2, 3, 4, 5, 6, 7, 255, 65538, 1000000}
AbiMostly(z) == IF R(1..5) = 1 THEN R(Abis) ELSE R(2..4)
Kinds == {"u8", "s8", "u16", "s16", "u32", "s32", "u64", "s64", "p", "f", "d", "ld", "cf", "cd", "cld", "cs8", "cs16", "cs64"}
Ref(m) == IF m > 0 /\ R(1..2) = 1 THEN Nod(R(1..m)) ELSE Sca(R(Kinds))
RandNode(i, bad) ==
  LET x == R(1..30) IN
  IF bad /\ x = 1 THEN [null |-> TRUE, e |-> <<>>]
  ELSE IF bad /\ x = 2 THEN [null |-> FALSE, e |-> <<>>]
  ELSE LET len == IF x < 12 THEN R(1..3) ELSE IF x < 28 THEN R(1..8) ELSE R(1..MaxMem)
           same == R(1..3) = 1
           one == Ref(i - 1)
       IN [null |-> FALSE, e |-> [j \in 1..len |-> IF same THEN one ELSE Ref(i - 1)]]
Req(m) ==
  LET x == R(1..10) IN
  CASE x <= 4 -> [op |-> "cif", abi |-> AbiMostly(m), fx |-> -1, ret |-> IF R(1..3) = 1 THEN Sca("v") ELSE Ref(m),
                  args |-> [i \in 1..R(0..5) |-> Ref(m)]]
    [] x <= 6 -> LET na == R(1..5) IN [op |-> "cif", abi |-> AbiMostly(m), fx |-> R(1..na), ret |-> Ref(m), args |-> [i \in 1..na |-> Ref(m)]]
    [] x <= 9 -> [op |-> "off", abi |-> AbiMostly(m), ref |-> Ref(m), null |-> R(1..3) = 1]
    [] OTHER -> [op |-> "clo", abi |-> AbiMostly(m), kind |-> R({"loc", "raw", "jraw", "go"})]
Case(z) ==
  LET m == R(1..MaxNodes)
      bad == R(BOOLEAN)
      w == [i \in 1..m |-> RandNode(i, bad)]
      hs == [i \in 1..2 |-> [j \in 1..HistLen |-> Req(m)]]
  IN [w |-> w, qs |-> hs]
SmallEnough(w) == LET L == LayAll(w) IN \A i \in DOMAIN L : L[i].sz < 20000000
Init == n = 0 /\ c = <<>>
Next == n < N /\ n' = n + 1 /\ c' = Case(n)
Spec == Init /\ [][Next]_<<n, c>>
Emit == n = 0 \/ PrintT("PLAN " \o ToJson(c))
=============================================================================
