-------------------------------- MODULE AbiGen --------------------------------
(***************************************************************************)
(* Exhaustive exploration of the System V assignment machine over a set of *)
(* representative types.  Checks the machine's own invariants and emits    *)
(* one conformance case per reachable (machine state, last type) pair.     *)
(***************************************************************************)
EXTENDS AbiPlan, FiniteSets

CONSTANTS MaxStack, MaxArgs, Universe, Mode, Abi

RepsNarrow ==
  << K("s8"), K("u64"), K("f"), K("d"), K("ld"), K("cf"), K("cd"), K("s32"), K("u16"),
     St(<<K("p"), K("d")>>),                        \* I S
     St(<<K("f"), K("f"), K("s32")>>),              \* S I
     St(<<K("d"), K("f")>>),                        \* S S
     St(<<K("s64"), K("u16")>>),                    \* I I
     St(<<K("f"), K("u8")>>),                       \* I (mixed)
     St(<<K("u8"), K("u8"), K("u8")>>),             \* I, 3 bytes
     St(<<K("p"), K("p"), K("u8")>>),               \* MEM 24
     St(<<K("ld")>>),                               \* MEM aligned 16
     St(<<K("f"), St(<<K("f"), K("f")>>)>>) >>      \* S S nested over the boundary
RepsWide == RepsNarrow \o
  << K("u8"), K("s16"), K("u32"), K("s64"), K("p"), K("cld"), K("cs16"), K("cs32"), K("cs64"),
     St(<<K("cf")>>), St(<<K("cd")>>), St(<<K("f"), K("cf")>>), St(<<K("s16"), St(<<K("s16"), K("f")>>), K("d")>>),
     St(<<K("u8"), K("d")>>), St(<<K("f"), K("f"), K("f"), K("f")>>), St(<<K("f")>>), St(<<K("d")>>),
     St(<<K("u8"), K("ld")>>), St(<<K("d"), K("d"), K("d")>>), St(<<K("s32"), K("f"), K("f")>>),
     St([i \in 1..9 |-> K("u8")]), St([i \in 1..16 |-> K("s8")]), St([i \in 1..17 |-> K("s8")]) >>
RepsJava == << K("s8"), K("s16"), K("s32"), K("s64"), K("u8"), K("u16"), K("u32"), K("u64"), K("p"), K("f"), K("d") >>
Reps == CASE Universe = "wide" -> RepsWide [] Universe = "java" -> RepsJava [] OTHER -> RepsNarrow

RetsReg == << K("v"), K("s8"), K("f"), K("s32"), K("d"), St(<<K("d"), K("p")>>), K("ld"), St(<<K("s32"), K("s32"), K("f")>>), K("u16"), K("cd"), St(<<K("f")>>),
             K("s16"), K("u32"), K("u8"), K("p"), K("s64"), K("cf"), K("cld"), K("cs32"), St(<<K("u8"), K("u8"), K("u8")>>), St(<<K("f"), K("f"), K("s64")>>),
             St(<<K("p"), K("s32")>>), St(<<K("ld")>>) >>
RetsMem == << St(<<K("p"), K("p"), K("s16")>>), St(<<K("u8"), K("ld")>>), St([i \in 1..19 |-> K("u8")]) >>

RetsJava == << K("v"), K("s8"), K("u8"), K("s16"), K("u16"), K("s32"), K("u32"), K("s64"), K("u64"), K("f"), K("d"), K("p") >>

RepI == Infos(Reps)
RetRegI == LET R == IF Universe = "java" THEN RetsJava ELSE RetsReg IN [i \in DOMAIN R |-> RetInfo(R[i])]
RetMemI == [i \in DOMAIN RetsMem |-> RetInfo(RetsMem[i])]

VARIABLES a, hid, last, hist
vars == <<a, hid, last, hist>>
\* SysV: every reachable machine state with every last argument.  Microsoft: every slot with every last
\* argument and its predecessor.
View == IF IsMs(Abi) THEN <<Len(hist), last, IF Len(hist) > 1 THEN hist[Len(hist) - 1] ELSE 0, hid>> ELSE <<a, hid, last>>

Init == hid \in (IF Universe = "java" THEN {FALSE} ELSE BOOLEAN) /\ a = AInit(hid) /\ last = 0 /\ hist = <<>>
Next == \E i \in DOMAIN Reps :
          /\ a' = AStep(a, RepI[i]) /\ last' = i
          /\ hist' = Append(hist, i) /\ UNCHANGED hid
Spec == Init /\ [][Next]_vars
Bounded == (IsMs(Abi) \/ a.st <= MaxStack) /\ Len(hist) <= MaxArgs

Xs  == [i \in 1..Len(hist) |-> RepI[hist[i]]]
Ret == LET n == a.g + 3 * a.s + 5 * last + a.st
       IN IF hid THEN RetMemI[1 + (n % Len(RetMemI))] ELSE RetRegI[1 + (n % Len(RetRegI))]
Fx == IF Len(hist) >= 2 /\ (a.g + a.s + last) % 5 = 0 /\ Reps[last].k \notin {"u8","s8","u16","s16","f"}
      THEN Len(hist) - 1 ELSE -1

\* invariants of the machine; each looks at the argument added last
InRange == a.g <= MaxG /\ a.s <= MaxS /\ a.st % 8 = 0
Cells(L, sz) ==
   IF L.mem THEN { <<"st", b>> : b \in (L.off \div 8)..((L.off + sz - 1) \div 8) }
            ELSE { L.pc[j] : j \in 1..Len(L.pc) }
LastOK == hist = <<>> \/
  LET n  == Len(hist)
      Ls == Assign(hid, Xs).loc
      L  == Ls[n]
      C  == Cells(L, Xs[n].sz)
  IN /\ hid => <<"I", 0>> \notin C
     /\ L.mem => L.off % Max2(8, Xs[n].al) = 0
     /\ L.mem \/ Len(L.pc) = RoundUp(Xs[n].sz, 8) \div 8
     /\ ~L.mem => \A j \in 1..Len(L.pc) : L.pc[j][2] < (IF L.pc[j][1] = "I" THEN MaxG ELSE MaxS)
     /\ \A i \in 1..(n - 1) : Cells(Ls[i], Xs[i].sz) \cap C = {}
EmitCase == hist = <<>> \/ ~Bounded \/ ~MsSupported(Abi, Ret.t, <<>>) \/ Emit([key |-> View,
                                  p |-> PlanI(Abi, Mode, IF Mode = "call" THEN Fx ELSE -1, Ret, Xs)])
=============================================================================
