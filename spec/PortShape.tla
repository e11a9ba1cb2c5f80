------------------------------ MODULE PortShape ------------------------------
(* Every small structure as argument and as result. *)
EXTENDS Ports, FiniteSets
CONSTANTS MaxFields, Abi, Mode
ShapeKinds == <<"u8", "s16", "s32", "p", "f", "d", "ld">>
VARIABLE sh                     \* indices of the members' kinds
Init == sh = <<>>
Next == Len(sh) < MaxFields /\ \E i \in DOMAIN ShapeKinds : sh' = Append(sh, i)
Spec == Init /\ [][Next]_sh
K(x) == [k |-> x]
Mem == [i \in DOMAIN sh |-> K(ShapeKinds[sh[i]])]
S1 == [k |-> "st", e |-> Mem]
Nested == [k |-> "st", e |-> <<K("u8"), S1>>]
Wrapped == [k |-> "st", e |-> <<[k |-> "st", e |-> <<Mem[1]>>]>> \o Tail(Mem)]
Tailed == [k |-> "st", e |-> <<S1, K("f")>>]
Forms == IF Len(sh) = 1 THEN {S1, Nested, Tailed} ELSE IF Len(sh) = 2 THEN {S1, Nested, Wrapped, Tailed} ELSE {S1, Wrapped}
ShapeOK == sh = <<>> \/ \A s \in Forms :
  LET l == Lay64(s) IN
  /\ l.sz % l.al = 0 /\ \A i \in 2..Len(l.lv) : l.lv[i-1].o + l.lv[i-1].n <= l.lv[i].o
  /\ LET r == RetInfoP(s) IN r.mem \/ \A i \in DOMAIN r.lv : \A k \in r.lv[i].o..(r.lv[i].o + r.lv[i].n - 1) :
                                      \E j \in DOMAIN r.pc : r.pc[j].o <= k /\ k < r.pc[j].o + r.pc[j].c
EmitCase == sh = <<>> \/ \A s \in Forms :
  /\ EmitP(<<s, 1>>, PlanP(Abi, Mode, -1, s, <<s, K("s32"), s>>))
  /\ EmitP(<<s, 2>>, PlanP(Abi, Mode, -1, K("v"), <<K("p"), K("p"), K("p"), K("d"), K("f"), K("d"), s, s, K("s16")>>))
  /\ Arch = "a64" \/ EmitP(<<s, 3>>, PlanP(Abi, Mode, 2, K("s32"), <<K("p"), s, s, K("d")>>))
=============================================================================
