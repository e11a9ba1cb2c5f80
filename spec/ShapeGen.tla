------------------------------- MODULE ShapeGen -------------------------------
(***************************************************************************)
(* Enumerates every structure shape within the bounds (member kinds, up to *)
(* MaxFields members, optionally one nested structure at every position)   *)
(* and emits, for each, cases in which the structure is result, register   *)
(* argument and stack argument, together with the classification           *)
(* invariants of the ABI.                                                  *)
(***************************************************************************)
EXTENDS AbiPlan, FiniteSets

CONSTANTS Kinds, MaxFields, Nest, Arrs, Mode, Abi

\* arr = n > 0: the first member kind is repeated n times
VARIABLES fs, nested, arr, copies
vars == <<fs, nested, arr, copies>>

Init == fs = <<>> /\ nested = <<0, 0>> /\ arr = 0 /\ copies \in 0..1
Next == /\ nested = <<0, 0>> /\ arr = 0 /\ UNCHANGED copies
        /\ \/ Len(fs) < MaxFields /\ (\E k \in Kinds : fs' = Append(fs, k)) /\ UNCHANGED <<nested, arr>>
           \/ Len(fs) \in 1..2 /\ (\E n \in Arrs : arr' = n) /\ UNCHANGED <<fs, nested>>
           \/ Nest /\ Len(fs) >= 2 /\ UNCHANGED <<fs, arr>>
              /\ \E i \in 1..Len(fs) : \E j \in i..Len(fs) : ~(i = 1 /\ j = Len(fs)) /\ nested' = <<i, j>>
Spec == Init /\ [][Next]_vars

Shape == IF arr > 0 THEN St([i \in 1..(arr + Len(fs) - 1) |-> K(IF i <= arr THEN fs[1] ELSE fs[2])])
         ELSE IF nested = <<0, 0>> THEN St([i \in 1..Len(fs) |-> K(fs[i])])
         ELSE St([i \in 1..(Len(fs) - (nested[2] - nested[1])) |->
                    IF i < nested[1] THEN K(fs[i])
                    ELSE IF i = nested[1] THEN St([j \in 1..(nested[2] - nested[1] + 1) |-> K(fs[nested[1] + j - 1])])
                    ELSE K(fs[i + nested[2] - nested[1]])])

\* copies = 0: structure first; 1: after registers of one file are nearly used up
Fill == << K("s16"), K("d"), K("s64"), K("p"), K("f"), K("u8"), K("s32") >>
Args == IF copies = 0 THEN << Shape, K("d"), Shape, K("s8"), Shape, K("f"), Shape, K("s32"), Shape >>
        ELSE Fill \o << Shape, K("f"), Shape, K("d"), K("d"), Shape, K("ld"), Shape >>

ShapeOK == fs = <<>> \/
  LET c == Classify(Shape)
      z == SizeOf(Shape)
  IN /\ LayoutOK(Shape)
     /\ (z > 16) => c = <<"MEM">>
     /\ c = <<"MEM">> \/ Len(c) = RoundUp(z, 8) \div 8
     /\ \A i \in 1..Len(c) : c[i] \in {"I", "S", "X87", "X87UP", "MEM"}      \* no eightbyte of pure padding
     /\ Classify(Shape) = Classify(St(<<Shape>>))                             \* wrapping changes nothing
EmitCase == fs = <<>> \/ ~MsSupported(Abi, Shape, <<>>) \/ Emit([key |-> <<fs, nested, arr, copies>>, p |-> Plan(Abi, Mode, -1, Shape, Args)])
=============================================================================
