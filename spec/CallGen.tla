-------------------------------- MODULE CallGen --------------------------------
(***************************************************************************)
(* Scripts of nested calls: every one within the bounds over the given     *)
(* routes, each closed by returning from what is left.  Checked on the way:*)
(* the stack never loses its bottom, every jump lands in an activation     *)
(* that is on the stack and prepared for it.                               *)
(***************************************************************************)
EXTENDS CallStack, TLC, Json
CONSTANTS RSet, SigOf, MaxLen, MaxDepth, Flag0, Fl
VARIABLES st, sc
vars == <<st, sc>>
Init == \E f \in Flag0 : st = <<[r |-> 0, f |-> f]>> /\ sc = <<>>
Ops == {Ent(r, s, c, f) : r \in RSet, s \in SigOf, c \in {0}, f \in Fl} \cup {Ret} \cup {Jump(k) : k \in 0..MaxDepth} \cup {Throw(k) : k \in 0..MaxDepth}
Next == \E op \in Ops :
  /\ Len(sc) < MaxLen /\ Can(st, op)
  /\ op.o = "E" => Len(st) <= MaxDepth
  /\ st' = Step(st, op) /\ sc' = Append(sc, op)
Spec == Init /\ [][Next]_vars
Bottom == Len(st) >= 1
Landed == sc # <<>> /\ sc[Len(sc)].o \in {"J", "T"} => st[Len(st)].f = (IF sc[Len(sc)].o = "J" THEN 1 ELSE 2)
\* afterwards every level still up enters and leaves something, and returns
Close == sc \o FlattenSeq([k \in 1..(Len(st) - 1) |-> <<Ent(0, 0, 0, 0), Ret, Ret>>]) \o <<Ent(3, 0, 0, 0), Ret>>
Emit == ~(Len(sc) = MaxLen \/ (sc # <<>> /\ sc[Len(sc)].o \in {"J", "T"})) \/ PrintT("S " \o ToJson([f |-> st[1].f, s |-> Close]))
===============================================================================
