------------------------------- MODULE PortGen -------------------------------
(***************************************************************************)
(* Every reachable state of a port's assignment machine with every last    *)
(* argument, and every result type.                                        *)
(***************************************************************************)
EXTENDS Ports, FiniteSets
CONSTANTS Abi, Mode, MaxStack, MaxArgs, Var

St(fs) == [k |-> "st", e |-> fs]
K(x) == [k |-> x]
Common == << K("s32"), K("d"), K("f"), K("ld"), St(<<K("s64"), K("s64")>>), St(<<K("d"), K("d")>>), St(<<K("f"), K("s32")>>), St([i \in 1..3 |-> K("p")]),
   \* up to here: the arguments the machine moves by
   K("s8"), K("u8"), K("s16"), K("u16"), K("u32"), K("p"), K("s64"), K("u64"),
   St(<<K("u8")>>), St(<<K("s16"), K("u8")>>), St(<<K("u8"), K("s64")>>), St(<<K("f")>>), St(<<K("d")>>), St(<<K("ld")>>), St(<<K("f"), K("f")>>),
   St(<<K("f"), K("d")>>), St(<<K("s64"), K("d")>>), St(<<K("d"), K("u8")>>), St(<<K("f"), K("f"), K("f")>>), St([i \in 1..4 |-> K("d")]),
   St([i \in 1..5 |-> K("d")]), St(<<K("u8"), K("ld")>>), St(<<K("ld"), K("ld")>>), St([i \in 1..4 |-> K("ld")]), St(<<K("f"), St(<<K("f"), K("f")>>)>>),
   St([i \in 1..17 |-> K("s8")]), St(<<K("u8"), K("u8"), K("f")>>), St([i \in 1..12 |-> K("u8")]) >>
Cplx == IF Arch = "a64" THEN << K("cf"), K("cd"), K("cld"), K("cs8"), K("cs32"), K("cs64"), St(<<K("cf"), K("f")>>), St(<<K("cs16")>>) >> ELSE <<>>
Reps == Common \o Cplx
NMove == 8
Rets == << K("v"), K("s8"), K("u8"), K("s16"), K("u16"), K("s32"), K("u32") >> \o Reps
RepI == InfosP(Reps)
RetI == [i \in DOMAIN Rets |-> RetInfoP(Rets[i])]
RetSet(m) == SelectSeq(RetI, LAMBDA r : r.mem = m)
RetR == RetSet(FALSE)
RetM == RetSet(TRUE)

VARIABLES b, hid, fx, hist
vars == <<b, hid, fx, hist>>
\* the number of named arguments matters only as "all so far" or "some"
View == <<b, hid, fx < 0, fx >= 0 /\ fx = Len(hist)>>
Init == hid \in BOOLEAN /\ b = PInit(hid) /\ fx = (IF Var THEN 0 ELSE -1) /\ hist = <<>>
Next == \E i \in 1..NMove : \E named \in BOOLEAN :
          /\ SupportedP(Abi, K("v"), <<Reps[i]>>)
          /\ named => fx >= 0 /\ fx = Len(hist)
          /\ fx >= 0 /\ ~named => VarOk(Reps[i]) /\ hist # <<>>
          /\ fx' = IF named THEN fx + 1 ELSE fx
          /\ b' = (StepP(Abi, fx', Len(hist) + 1, b, RepI[i])).b
          /\ hist' = Append(hist, i) /\ UNCHANGED hid
Spec == Init /\ [][Next]_vars
Bounded == b.st <= MaxStack /\ Len(hist) <= MaxArgs /\ ~b.und

Xs == [i \in 1..Len(hist) |-> RepI[hist[i]]]

\* invariants of the machine: registers and stack are handed out in order, never twice, and what is handed out covers the value
InRange == b.g <= MaxX /\ b.s <= MaxV /\ b.st % 8 = 0
Cells(loc) == UNION {IF p.w = "s" THEN {<<"s", p.n + k>> : k \in 0..(p.c - 1)} ELSE {<<p.w, p.n>>} : p \in {loc.pc[i] : i \in DOMAIN loc.pc}}
Covers(loc, x) == LET at(k) == \E i \in DOMAIN loc.pc : loc.pc[i].o <= k /\ k < loc.pc[i].o + loc.pc[i].c
                  IN IF loc.ref THEN loc.pc[1].o = 0 /\ loc.pc[1].c = 8
                     ELSE \A i \in DOMAIN x.lv : \A k \in x.lv[i].o..(x.lv[i].o + x.lv[i].n - 1) : at(k)
Disjoint == hist = <<>> \/
  LET A == AssignP(Abi, fx, hid, Xs)
      n == Len(hist)
  IN /\ A.b = b
     /\ \A i \in 1..(n - 1) : Cells(A.loc[i]) \cap Cells(A.loc[n]) = {}
     /\ hid /\ Arch # "a64" => <<"x", 0>> \notin Cells(A.loc[n])
     /\ Covers(A.loc[n], Xs[n])
     /\ \A c \in Cells(A.loc[n]) : c[1] = "s" => c[2] < b.st
     /\ \A i \in DOMAIN A.loc[n].pc : A.loc[n].pc[i].w = "x" => A.loc[n].pc[i].n < MaxX
     /\ \A i \in DOMAIN A.loc[n].pc : A.loc[n].pc[i].w = "v" => A.loc[n].pc[i].n < MaxV
\* every type as the next argument
EmitCases == ~Bounded \/ \A i \in DOMAIN Reps : \A named \in BOOLEAN :
  LET n == Len(hist)
      ok == IF fx < 0 THEN ~named ELSE IF named THEN fx = n ELSE fx >= 1
      f == IF named THEN fx + 1 ELSE fx
      q == b.g + i + (b.st \div 8) + (3 * n)
      r == IF hid THEN RetM[1 + (q % Len(RetM))] ELSE RetR[1 + (q % Len(RetR))]
  IN ok => EmitP(<<View, i, named>>, PlanPI(Abi, Mode, f, r, Append(Xs, RepI[i])))
EmitRets == hist # <<>> \/ hid \/ Var \/
  \A i \in DOMAIN RetI : \A as \in {<<>>, <<K("s32")>>, <<K("f"), K("p"), K("u16")>>} : EmitP(<<Rets[i], as>>, PlanPI(Abi, Mode, -1, RetI[i], InfosP(as)))
=============================================================================
