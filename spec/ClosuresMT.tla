------------------------------ MODULE ClosuresMT ------------------------------
(***************************************************************************)
(* The table allocator and the heap below it, used by several threads the  *)
(* way src/closures.c, src/tramp.c and src/dlmalloc.c do it: two locks,    *)
(* first use initialises under the tramp lock, an allocation takes a heap  *)
(* block and then a slot, freeing gives the slot back and then the block.  *)
(* Every access to shared state is a step of its own.  TLC checks that     *)
(* every interleaving implements Closures (each operation takes effect at  *)
(* one moment between its call and its return), that first use initialises *)
(* once, and that nobody waits for ever.                                   *)
(* Bug: "nolock" no tramp lock; "split" lets it go between looking for a   *)
(* table with room and taking a slot; "once" tests for first use before    *)
(* taking the lock; "early" gives the block back before the slot, without  *)
(* the lock; "heap" no heap lock; "order" takes the heap lock inside the   *)
(* tramp lock when freeing and the other way round when allocating.        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, SequencesExt

CONSTANTS Threads, Progs, Tabs, N, Blocks, Bug
\* Progs[t]: sequence of <<"a", id>> and <<"f", id>>
Ids == UNION { {Progs[t][k][2] : k \in DOMAIN Progs[t]} : t \in Threads }
None == [t |-> 0, s |-> 0, b |-> 0]
VARIABLES clo, tf, fl, heap, blk, inits, lk, th
vars == <<clo, tf, fl, heap, blk, inits, lk, th>>
q == [up |-> TRUE, clo |-> clo, own |-> <<>>, tabs |-> {x.t : x \in ToSet(tf)}]

Init == /\ clo = [i \in Ids |-> None] /\ tf = <<>> /\ fl = <<>> /\ heap = {} /\ blk = [i \in Ids |-> 0]
        /\ inits = 0 /\ lk = [h |-> 0, t |-> 0]
        /\ th = [t \in Threads |-> [k |-> 1, pc |-> "go", x |-> 0, y |-> 0]]
Op(t) == Progs[t][th[t].k]
Id(t) == Op(t)[2]
To(t, p) == th' = [th EXCEPT ![t].pc = p]
ToX(t, p, x) == th' = [th EXCEPT ![t].pc = p, ![t].x = x]
ToXY(t, p, x, y) == th' = [th EXCEPT ![t].pc = p, ![t].x = x, ![t].y = y]
Fin(t) == th' = [th EXCEPT ![t].pc = "go", ![t].k = @ + 1, ![t].x = 0, ![t].y = 0]
Lock(t, l, p) == lk[l] = 0 /\ lk' = [lk EXCEPT ![l] = t] /\ To(t, p)
Unlock(t, l) == lk[l] = t /\ lk' = [lk EXCEPT ![l] = 0]
Skip(t, p) == UNCHANGED lk /\ To(t, p)

NewTab == CHOOSE n \in Tabs : (\A x \in ToSet(tf) : x.t # n) /\ \A u \in Tabs : u < n => \E x \in ToSet(tf) : x.t = u
Order == Bug = "order"
\* ---- allocation
A(t) == /\ Op(t)[1] = "a"
  /\ \/ th[t].pc = "go" /\ (IF Bug = "heap" THEN Skip(t, "h1") ELSE Lock(t, "h", "h1")) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \/ th[t].pc = "h1" /\ \E b \in Blocks \ heap : (\A z \in Blocks \ heap : z >= b) /\ ToX(t, "h2", b) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits, lk>>
     \/ th[t].pc = "h2" /\ heap' = heap \cup {th[t].x} /\ blk' = [blk EXCEPT ![Id(t)] = th[t].x] /\ To(t, "h3") /\ UNCHANGED <<clo, tf, fl, inits, lk>>
     \/ th[t].pc = "h3" /\ (IF Bug = "heap" \/ Order THEN Skip(t, "i0") ELSE Unlock(t, "h") /\ To(t, "i0")) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \* first use
     \/ th[t].pc = "i0" /\ Bug = "once" /\ To(t, IF inits = 0 THEN "i1" ELSE "t0") /\ UNCHANGED <<clo, tf, fl, heap, blk, inits, lk>>
     \/ th[t].pc = (IF Bug = "once" THEN "i1" ELSE "i0") /\ (IF Bug = "nolock" THEN Skip(t, "i2") ELSE Lock(t, "t", "i2")) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \/ th[t].pc = "i2" /\ (IF inits = 0 \/ Bug = "once" THEN To(t, "i3") ELSE To(t, "t1")) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits, lk>>
     \/ th[t].pc = "i3" /\ inits' = inits + 1 /\ fl' = <<>> /\ To(t, "t1") /\ UNCHANGED <<clo, tf, heap, blk, lk>>
     \/ th[t].pc = "t0" /\ Lock(t, "t", "t1") /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \* a table with room
     \/ th[t].pc = "t1" /\ To(t, "t2") /\ UNCHANGED <<clo, heap, blk, inits, lk>>
        /\ (IF fl = <<>> THEN tf' = Append(tf, [t |-> NewTab, f |-> [k \in 1..N |-> N + 1 - k]]) /\ fl' = <<NewTab>> ELSE UNCHANGED <<tf, fl>>)
     \/ th[t].pc = "t2" /\ (IF Bug = "split" THEN lk' = [lk EXCEPT !.t = 0] /\ To(t, "t2b") ELSE Skip(t, "t3")) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \/ th[t].pc = "t2b" /\ Lock(t, "t", "t3") /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \* the slot is read, then taken
     \/ th[t].pc = "t3" /\ fl # <<>> /\ (LET f == (CHOOSE x \in ToSet(tf) : x.t = fl[1]).f IN f # <<>> /\ ToXY(t, "t4", fl[1], f[1]))
        /\ UNCHANGED <<clo, tf, fl, heap, blk, inits, lk>>
     \/ th[t].pc = "t4" /\ tf' = [k \in DOMAIN tf |-> IF tf[k].t = th[t].x THEN [tf[k] EXCEPT !.f = SelectSeq(@, LAMBDA s : s # th[t].y)] ELSE tf[k]]
        /\ fl' = SelectSeq(fl, LAMBDA n : \E x \in ToSet(tf') : x.t = n /\ x.f # <<>>)
        /\ clo' = [clo EXCEPT ![Id(t)] = [t |-> th[t].x, s |-> th[t].y, b |-> 0]]
        /\ To(t, "t5") /\ UNCHANGED <<heap, blk, inits, lk>>
     \/ th[t].pc = "t5" /\ Fin(t) /\ (IF Bug = "nolock" THEN UNCHANGED lk
                                      ELSE IF Order THEN lk' = [lk EXCEPT !.t = 0, !.h = 0] ELSE Unlock(t, "t"))
        /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
\* ---- freeing
F(t) == /\ Op(t)[1] = "f"
  /\ \/ th[t].pc = "go" /\ Bug # "early" /\ (IF Bug = "nolock" THEN Skip(t, "f1") ELSE Lock(t, "t", "f1")) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \/ th[t].pc = "go" /\ Bug = "early" /\ heap' = heap \ {blk[Id(t)]} /\ To(t, "e1") /\ UNCHANGED <<clo, tf, fl, blk, inits, lk>>
     \/ th[t].pc = "e1" /\ Lock(t, "t", "f1") /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \/ th[t].pc = "f1" /\ LET c == clo[Id(t)]
                               f == <<c.s>> \o (CHOOSE x \in ToSet(tf) : x.t = c.t).f
                               g == IF Len(f) = 1 THEN <<c.t>> \o fl ELSE fl IN
          /\ clo' = [clo EXCEPT ![Id(t)] = None]
          /\ IF Len(f) = N /\ Len(g) > 1
             THEN tf' = SelectSeq(tf, LAMBDA x : x.t # c.t) /\ fl' = SelectSeq(g, LAMBDA n : n # c.t)
             ELSE tf' = [k \in DOMAIN tf |-> IF tf[k].t = c.t THEN [tf[k] EXCEPT !.f = f] ELSE tf[k]] /\ fl' = g
          /\ To(t, "f2") /\ UNCHANGED <<heap, blk, inits, lk>>
     \/ th[t].pc = "f2" /\ (IF Bug = "nolock" \/ Order THEN UNCHANGED lk ELSE Unlock(t, "t"))
        /\ (IF Bug = "early" THEN Fin(t) /\ blk' = [blk EXCEPT ![Id(t)] = 0] ELSE To(t, "f3") /\ UNCHANGED blk) /\ UNCHANGED <<clo, tf, fl, heap, inits>>
     \/ th[t].pc = "f3" /\ (IF Bug = "heap" THEN Skip(t, "f4") ELSE Lock(t, "h", "f4")) /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
     \/ th[t].pc = "f4" /\ heap' = heap \ {blk[Id(t)]} /\ blk' = [blk EXCEPT ![Id(t)] = 0] /\ To(t, "f5") /\ UNCHANGED <<clo, tf, fl, inits, lk>>
     \/ th[t].pc = "f5" /\ Fin(t) /\ (IF Bug = "heap" THEN UNCHANGED lk
                                      ELSE IF Order THEN lk' = [lk EXCEPT !.t = 0, !.h = 0] ELSE Unlock(t, "h"))
        /\ UNCHANGED <<clo, tf, fl, heap, blk, inits>>
Going(t) == th[t].k <= Len(Progs[t])
Next == (\E t \in Threads : Going(t) /\ (A(t) \/ F(t))) \/ ((\A t \in Threads : ~Going(t)) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Abs == INSTANCE Closures WITH Procs <- {0}, Own <- {}, Binds <- {}, st <- [p \in {0} |-> q]
\* every interleaving is one of the closures' sequential histories
Implements == Abs!ASpec
Isolated == Abs!Isolated
Backed == Abs!Backed
Bounded == Abs!Bounded
Once == inits <= 1
Memory == \A i, j \in Ids : i # j /\ blk[i] # 0 => blk[i] # blk[j]
Held == \A i \in Ids : clo[i] # None => blk[i] \in heap
Quiet == \A t \in Threads : th[t].pc = "go" => lk.h # t /\ lk.t # t
===============================================================================
