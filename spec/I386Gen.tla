------------------------------- MODULE I386Gen -------------------------------
(***************************************************************************)
(* Every reachable state of the 32-bit assignment machine with every last  *)
(* argument, every result type, and all small structure shapes.            *)
(***************************************************************************)
EXTENDS I386, FiniteSets

CONSTANTS Abi, Mode, MaxStack, MaxArgs

St(fs) == [k |-> "st", e |-> fs]
K(x) == [k |-> x]
Reps == << K("s8"), K("u8"), K("s16"), K("u16"), K("s32"), K("u32"), K("p"), K("s64"), K("u64"), K("f"), K("d"), K("ld"),
           K("cf"), K("cd"), K("cld"), K("cs8"), K("cs16"), K("cs32"), K("cs64"),
           St(<<K("u8")>>), St(<<K("s16")>>), St(<<K("s32")>>), St(<<K("u8"), K("u8"), K("u8")>>), St(<<K("s16"), K("u8")>>),
           St(<<K("u8"), K("s32")>>), St(<<K("s64")>>), St(<<K("f")>>), St(<<K("d")>>), St(<<K("f"), K("f")>>), St(<<K("s32"), K("d")>>),
           St(<<K("u8"), K("ld")>>), St(<<K("s16"), K("s16"), K("s16")>>), St(<<K("u8"), St(<<K("u8"), K("s64")>>)>>),
           St([i \in 1..5 |-> K("u8")]), St([i \in 1..17 |-> K("s8")]) >>
Rets == << K("v"), K("s8"), K("u8"), K("s16"), K("u16"), K("s32"), K("u32"), K("p"), K("s64"), K("u64"), K("f"), K("d"), K("ld"),
           K("cf"), K("cs8"), K("cs16"), K("cs32") >>
RetsM == << St(<<K("u8")>>), K("cd"), St(<<K("s32")>>), K("cld"), St(<<K("s16"), K("u8")>>), K("cs64"), St(<<K("d"), K("u8")>>),
            St(<<K("f")>>), St([i \in 1..33 |-> K("s8")]) >>
RepI == Infos32(Reps)
RetI == [i \in DOMAIN Rets |-> RetInfo32(Rets[i])]
RetMI == [i \in DOMAIN RetsM |-> RetInfo32(RetsM[i])]

VARIABLES b, hid, last, hist
vars == <<b, hid, last, hist>>
View == <<b, hid, last>>
Init == hid \in BOOLEAN /\ b = BInit(Abi, hid) /\ last = 0 /\ hist = <<>>
Next == \E i \in DOMAIN Reps : /\ Supported32(Abi, Mode, K("v"), <<Reps[i]>>)
                               /\ b' = BStep(Abi, b, RepI[i]) /\ last' = i /\ hist' = Append(hist, i) /\ UNCHANGED hid
Spec == Init /\ [][Next]_vars
Bounded == b.st <= MaxStack /\ Len(hist) <= MaxArgs /\ ~b.bad

Xs == [i \in 1..Len(hist) |-> RepI[hist[i]]]
Pick == IF last = 0 THEN {} ELSE
        LET n == b.r + last + (b.st \div 4) + 3 * Len(hist)
        IN IF hid THEN {RetMI[1 + (n % Len(RetMI))]} ELSE {RetI[1 + (n % Len(RetI))]}

\* invariants of the machine
InRange == b.r <= NRegs(Abi) /\ b.st % 4 = 0
Disjoint == hist = <<>> \/
  LET A == Assign32(Abi, hid, Xs)
      n == Len(hist)
      cells(i) == IF A.loc[i].reg THEN {<<"r", A.loc[i].n>>} ELSE {<<"s", A.loc[i].n + (4 * w)>> : w \in 0..(Words4(Xs[i].sz) - 1)}
      hidc == IF ~hid THEN {} ELSE IF NRegs(Abi) > 0 THEN {<<"r", 0>>} ELSE {<<"s", 0>>}
  IN /\ A.a = b
     /\ \A i \in 1..(n - 1) : cells(i) \cap cells(n) = {}
     /\ cells(n) \cap hidc = {}
     /\ Pops(Abi, hid, b.st) <= b.st
EmitCases == ~Bounded \/ \A r \in Pick : Emit32(<<View, r.t>>, Plan32I(Abi, Mode, r, Xs))
\* with no argument and with one: every result type
EmitRets == hist # <<>> \/ hid \/
  \A S \in {RetI, RetMI} : \A i \in DOMAIN S : \A as \in {<<>>, <<K("s32")>>, <<K("f"), K("p"), K("u16")>>} :
    Emit32(<<S[i].t, as>>, Plan32I(Abi, Mode, S[i], Infos32(as)))
=============================================================================
