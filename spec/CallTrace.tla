------------------------------- MODULE CallTrace -------------------------------
(* What running a script showed must be what CallStack expects of it. *)
EXTENDS CallStack, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Op(x) == CASE x[1] = "E" -> Ent(x[2], x[3], x[4], x[5]) [] x[1] = "R" -> Ret [] x[1] = "J" -> Jump(x[2]) [] x[1] = "T" -> Throw(x[2])
Run(e) ==
  LET sc == [k \in DOMAIN e.s |-> Op(e.s[k])]
      x == Expected(e.f, sc).ev
      n == IF Len(e.ev) < Len(x) THEN Len(e.ev) ELSE Len(x)
      D == {k \in 1..n : e.ev[k] # x[k]}
      d == CHOOSE k \in D : \A j \in D : k <= j
  IN IF D # {} THEN [w |-> {IF x[d][1] = "E" THEN "entered" ELSE IF x[d][1] = "R" THEN "returned" ELSE "caught"}, at |-> d, want |-> x[d], got |-> e.ev[d]]
     ELSE IF e.crash # 0 THEN [w |-> {"crash"}, at |-> Len(e.ev) + 1, want |-> IF Len(e.ev) < Len(x) THEN x[Len(e.ev) + 1] ELSE <<>>, got |-> <<e.crash>>]
     ELSE IF Len(e.ev) # Len(x) THEN [w |-> {"events"}, at |-> n, want |-> <<Len(x)>>, got |-> <<Len(e.ev)>>]
     ELSE [w |-> {}, at |-> 0, want |-> <<>>, got |-> <<>>]
Init == l = 0 /\ bad = [w |-> {}]
Next == l < Len(Trace) /\ l' = l + 1 /\ bad' = Run(Trace[l'])
Spec == Init /\ [][Next]_<<l, bad>>
Report == bad.w = {} \/ PrintT("REJECT " \o ToJson([i |-> Trace[l].i, why |-> SetToSeq(bad.w), at |-> bad.at, want |-> bad.want, got |-> bad.got]))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
