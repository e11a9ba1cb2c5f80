--------------------------------- MODULE Descr ---------------------------------
(***************************************************************************)
(* Type descriptions as a graph, and what every preparation request must   *)
(* answer.  A world is a sequence of structure nodes; node i is            *)
(*   [null |-> BOOLEAN, e |-> << member references >>]                     *)
(* (null: the member list itself is missing).  A reference is a record     *)
(* [s |-> scalar kind, n |-> 0] or [s |-> "", n |-> node number]; nodes    *)
(* refer only to earlier nodes, and any number of members may share one.   *)
(***************************************************************************)
EXTENDS Layout, FiniteSets

Sca(k) == [s |-> k, n |-> 0]
Nod(i) == [s |-> "", n |-> i]
IsNode(r) == r.n # 0

Bad == [ok |-> FALSE, sz |-> 0, al |-> 0, offs |-> <<>>]
\* layout of every node of world w, in order
LayAll(w) ==
  LET refLay(done, r) == IF IsNode(r) THEN done[r.n]
                         ELSE [ok |-> TRUE, sz |-> Scalar[r.s].sz, al |-> Scalar[r.s].al, offs |-> <<>>]
      add(done, acc, r) ==
        LET l == refLay(done, r) IN
        IF ~acc.ok \/ ~l.ok THEN Bad
        ELSE LET o == RoundUp(acc.sz, l.al)
             IN [ok |-> TRUE, sz |-> o + l.sz, al |-> Max2(acc.al, l.al), offs |-> Append(acc.offs, o)]
      node(done, nd) ==
        IF nd.null \/ nd.e = <<>> THEN Bad
        ELSE LET a == FoldLeft(LAMBDA acc, r : add(done, acc, r), [ok |-> TRUE, sz |-> 0, al |-> 1, offs |-> <<>>], nd.e)
             IN IF a.ok THEN [a EXCEPT !.sz = RoundUp(@, a.al)] ELSE Bad
  IN FoldLeft(LAMBDA done, nd : Append(done, node(done, nd)), <<>>, w)

\* nodes reachable from reference r
RECURSIVE Reach(_, _)
Reach(w, r) == IF ~IsNode(r) THEN {}
               ELSE {r.n} \cup (IF w[r.n].null THEN {} ELSE UNION {Reach(w, w[r.n].e[i]) : i \in DOMAIN w[r.n].e})

OK == 0
BADTYPEDEF == 1
BADABI == 2
BADARGTYPE == 3
AbiOK(a) == a \in {2, 3, 4}             \* FFI_UNIX64, FFI_WIN64, FFI_GNUW64

RefOK(L, r) == ~IsNode(r) \/ L[r.n].ok
NarrowVar(r) == r.s \in {"u8", "s8", "u16", "s16", "f"}

(***************************************************************************)
(* Requests: [op |-> "cif", abi, fx (-1: not variadic), ret, args]         *)
(*           [op |-> "off", abi, ref, null (no offsets wanted)]            *)
(*           [op |-> "clo", abi, kind]                                     *)
(* and the answer, a function of the request alone.                        *)
(***************************************************************************)
Answer(w, L, q) ==
  CASE q.op = "cif" ->
         IF ~AbiOK(q.abi) THEN BADABI
         ELSE IF ~RefOK(L, q.ret) \/ \E i \in DOMAIN q.args : ~RefOK(L, q.args[i]) THEN BADTYPEDEF
         ELSE IF q.fx >= 0 /\ \E i \in DOMAIN q.args : i > q.fx /\ NarrowVar(q.args[i]) THEN BADARGTYPE
         ELSE OK
    [] q.op = "off" ->
         IF ~AbiOK(q.abi) THEN BADABI
         ELSE IF ~IsNode(q.ref) \/ ~L[q.ref.n].ok THEN BADTYPEDEF ELSE OK
    [] OTHER -> IF AbiOK(q.abi) THEN OK ELSE BADABI

Touches(w, q) ==
  CASE q.op = "cif" -> Reach(w, q.ret) \cup UNION {Reach(w, q.args[i]) : i \in DOMAIN q.args}
    [] q.op = "off" -> Reach(w, q.ref)
    [] OTHER -> {}
=============================================================================
