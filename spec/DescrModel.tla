------------------------------ MODULE DescrModel ------------------------------
(***************************************************************************)
(* The preparation machine, shaped like the implementation: a description  *)
(* with size 0 is laid out on demand, member first; one with a size is     *)
(* taken as already laid out.  TLC explores every world within the bounds  *)
(* and every history of requests, and checks that the answers and layouts  *)
(* do not depend on the history.  Each world also emits one conformance    *)
(* history per possible first request.                                     *)
(*                                                                         *)
(* Forget = TRUE models what the code does on rejection (the partial       *)
(* layout is dropped); FALSE is the defect in which it is kept.            *)
(***************************************************************************)
EXTENDS Descr, Json

CONSTANTS Scalars, NNodes, MaxMem, Chained, Forget, MaxOps

VARIABLES w, sz, q, ans, k
vars == <<w, sz, q, ans, k>>

MemSeqs(i) == UNION { [1..m -> {Sca(s) : s \in Scalars} \cup {Nod(j) : j \in 1..(i - 1)}] : m \in 1..MaxMem }
NodesAt(i) == {[null |-> TRUE, e |-> <<>>], [null |-> FALSE, e |-> <<>>]} \cup {[null |-> FALSE, e |-> s] : s \in MemSeqs(i)}
\* Chained: node i must use node i-1
Uses(nd, j) == \E x \in DOMAIN nd.e : nd.e[x].n = j
Worlds == {ww \in [1..NNodes -> UNION {NodesAt(i) : i \in 1..NNodes}] :
             /\ \A i \in 1..NNodes : ww[i] \in NodesAt(i)
             /\ Chained => \A i \in 2..NNodes : Uses(ww[i], i - 1)}

NoReq == [op |-> "none"]
Requests(ww) ==
  LET n == Len(ww)
      N(i) == Nod(i)
      per(i) == << [op |-> "cif", abi |-> 2, fx |-> -1, ret |-> N(i), args |-> <<>>],
                   [op |-> "off", abi |-> 2, ref |-> N(i), null |-> FALSE],
                   [op |-> "cif", abi |-> 2, fx |-> -1, ret |-> Sca("v"), args |-> <<Sca("d"), N(i), N(n)>>],
                   [op |-> "off", abi |-> 4, ref |-> N(i), null |-> TRUE],
                   [op |-> "cif", abi |-> 3, fx |-> -1, ret |-> N(i), args |-> <<N(1)>>],
                   [op |-> "cif", abi |-> 2, fx |-> 1, ret |-> Sca("s32"), args |-> <<Sca("u8"), N(i)>>],
                   [op |-> "cif", abi |-> 4, fx |-> 1, ret |-> Sca("s32"), args |-> <<N(i), Sca("s16")>>],
                   [op |-> "cif", abi |-> 5, fx |-> -1, ret |-> N(i), args |-> <<Sca("p")>>],
                   [op |-> "off", abi |-> 1, ref |-> N(i), null |-> FALSE] >>
  IN FoldLeft(LAMBDA acc, i : acc \o per(i), <<>>, [i \in 1..n |-> i])

(***************************************************************************)
(* The implementation-shaped layout step: st = [ok, s] with s the sizes.   *)
(***************************************************************************)
RECURSIVE Init1(_, _, _)
Ensure(ww, s, r) == IF ~IsNode(r) \/ s[r.n] # 0 THEN [ok |-> TRUE, s |-> s] ELSE Init1(ww, s, r.n)
Init1(ww, s, i) ==
  IF ww[i].null THEN [ok |-> FALSE, s |-> s]
  ELSE LET szOf(ss, r) == IF IsNode(r) THEN ss[r.n] ELSE Scalar[r.s].sz
           alOf(r) == IF IsNode(r) THEN LayAll(ww)[r.n].al ELSE Scalar[r.s].al
           f(acc, r) == IF ~acc.ok THEN acc
                        ELSE LET e == Ensure(ww, acc.s, r)
                             IN IF ~e.ok THEN [ok |-> FALSE, s |-> e.s, z |-> IF Forget THEN 0 ELSE acc.z, al |-> 1]
                                ELSE [ok |-> TRUE, s |-> e.s, z |-> RoundUp(acc.z, alOf(r)) + szOf(e.s, r), al |-> Max2(acc.al, alOf(r))]
           a == FoldLeft(f, [ok |-> TRUE, s |-> [s EXCEPT ![i] = 0], z |-> 0, al |-> 1], ww[i].e)
           z == IF a.ok THEN RoundUp(a.z, a.al) ELSE a.z
       IN [ok |-> a.ok /\ z # 0, s |-> [a.s EXCEPT ![i] = z]]

Exec(ww, s, r) ==
  CASE r.op = "cif" ->
         IF ~AbiOK(r.abi) THEN [st |-> BADABI, s |-> s]
         ELSE LET f(acc, x) == IF ~acc.ok THEN acc ELSE Ensure(ww, acc.s, x)
                  a == FoldLeft(f, [ok |-> TRUE, s |-> s], <<r.ret>> \o r.args)
              IN [st |-> IF ~a.ok THEN BADTYPEDEF
                         ELSE IF r.fx >= 0 /\ \E i \in DOMAIN r.args : i > r.fx /\ NarrowVar(r.args[i]) THEN BADARGTYPE ELSE OK,
                  s |-> a.s]
    [] OTHER ->
         IF ~AbiOK(r.abi) THEN [st |-> BADABI, s |-> s]
         ELSE LET a == Init1(ww, s, r.ref.n) IN [st |-> IF a.ok THEN OK ELSE BADTYPEDEF, s |-> a.s]

Init == w \in Worlds /\ sz = [i \in 1..NNodes |-> 0] /\ q = NoReq /\ ans = OK /\ k = 0
Next == k < MaxOps /\ k' = k + 1 /\ UNCHANGED w
        /\ \E i \in DOMAIN Requests(w) :
             LET e == Exec(w, sz, Requests(w)[i])
             IN q' = Requests(w)[i] /\ ans' = e.st /\ sz' = e.s
Spec == Init /\ [][Next]_vars
View == <<w, sz, q, ans>>

HistoryFree == q = NoReq \/ ans = Answer(w, LayAll(w), q)
LaidOK == LET L == LayAll(w) IN \A i \in 1..NNodes : sz[i] # 0 => L[i].ok /\ sz[i] = L[i].sz
AcceptedLaid == (q # NoReq /\ ans = OK) => \A i \in Touches(w, q) : sz[i] # 0

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Emit == k # 0 \/ LET R == Requests(w) IN
          PrintT("PLAN " \o ToJson([w |-> w, qs |-> [i \in DOMAIN R |-> <<R[i]>> \o (IF i % 2 = 0 THEN R ELSE Rev(R))]]))
=============================================================================
