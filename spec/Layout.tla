------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* C layout of the types a foreign-function interface can describe, for    *)
(* the LP64 x86-64 ABIs.  A type is a record with field k (its kind); a    *)
(* structure is [k |-> "st", e |-> <<member types>>].  A union is          *)
(* described as the manual says, [k |-> "un", e |-> <<largest member>>,    *)
(* sz, al]: with one member and with the union's own size and alignment.   *)
(*                                                                         *)
(* Lay(t) gives size, alignment, member offsets and the flattened leaves:  *)
(* the maximal runs of significant (non padding) bytes of one machine      *)
(* class, [o offset, n bytes, c class] with c one of                       *)
(*   "I" integer/pointer   "S" float/double   "L" 80-bit x87 value         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
RoundUp(n, a) == ((n + a - 1) \div a) * a

Leaf(o, n, c) == [o |-> o, n |-> n, c |-> c]
Sc(sz, al, lv) == [sz |-> sz, al |-> al, lv |-> lv, offs |-> <<>>]
One(sz, c) == Sc(sz, sz, <<Leaf(0, sz, c)>>)
Pair(sz, c) == Sc(2 * sz, sz, <<Leaf(0, sz, c), Leaf(sz, sz, c)>>)

Scalar ==
  [ v   |-> Sc(1, 1, <<>>),
    u8  |-> One(1, "I"), s8  |-> One(1, "I"),
    u16 |-> One(2, "I"), s16 |-> One(2, "I"),
    u32 |-> One(4, "I"), s32 |-> One(4, "I"),
    u64 |-> One(8, "I"), s64 |-> One(8, "I"),
    p   |-> One(8, "I"),
    f   |-> One(4, "S"), d   |-> One(8, "S"),
    ld  |-> Sc(16, 16, <<Leaf(0, 10, "L")>>),
    cf  |-> Pair(4, "S"), cd |-> Pair(8, "S"),
    cld |-> Sc(32, 16, <<Leaf(0, 10, "L"), Leaf(16, 10, "L")>>),
    cs8 |-> Pair(1, "I"), cs16 |-> Pair(2, "I"),
    cs32 |-> Pair(4, "I"), cs64 |-> Pair(8, "I") ]

ScalarKinds == DOMAIN Scalar
IntKinds    == {"u8", "s8", "u16", "s16", "u32", "s32", "u64", "s64", "p"}
SignedKinds == {"s8", "s16", "s32", "s64"}
ComplexKinds == {"cf", "cd", "cld", "cs8", "cs16", "cs32", "cs64"}
IsStruct(t) == t.k \in {"st", "un"}

RECURSIVE LayT(_, _)
LayT(S, t) ==                  \* S: the table of scalar layouts
  IF t.k = "un" THEN [LayT(S, t.e[1]) EXCEPT !.sz = t.sz, !.al = t.al, !.offs = <<0>>]
  ELSE IF t.k # "st" THEN S[t.k]
  ELSE LET add(acc, m) ==
             LET l == LayT(S, m)
                 o == RoundUp(acc.sz, l.al)
             IN [ sz   |-> o + l.sz,
                  al   |-> Max2(acc.al, l.al),
                  lv   |-> acc.lv \o [i \in 1..Len(l.lv) |-> [l.lv[i] EXCEPT !.o = @ + o]],
                  offs |-> Append(acc.offs, o) ]
           r == FoldLeft(add, Sc(0, 1, <<>>), t.e)
       IN [r EXCEPT !.sz = RoundUp(@, r.al)]
Lay(t) == LayT(Scalar, t)

SizeOf(t)  == Lay(t).sz
AlignOf(t) == Lay(t).al

(***************************************************************************)
(* Well-formedness invariants of the layout itself (checked over the       *)
(* bounded type universes by MCLayout).                                    *)
(***************************************************************************)
LayoutOK(t) ==
  LET l == Lay(t) IN
  /\ l.sz % l.al = 0
  /\ \A i \in 1..Len(l.lv) :
        /\ l.lv[i].o + l.lv[i].n <= l.sz
        /\ i > 1 => l.lv[i-1].o + l.lv[i-1].n <= l.lv[i].o    \* disjoint, increasing
  /\ IsStruct(t) =>
        \A i \in 1..Len(t.e) :
          /\ l.offs[i] % AlignOf(t.e[i]) = 0
          /\ l.offs[i] + SizeOf(t.e[i]) <= IF i < Len(t.e) THEN l.offs[i+1] ELSE l.sz

(***************************************************************************)
(* Byte strings are hexadecimal strings; byte i of h is characters         *)
(* 2i+1, 2i+2.                                                             *)
(***************************************************************************)
Hx(h, off, n) == IF 2 * (off + n) > Len(h) THEN "" ELSE SubSeq(h, 2 * off + 1, 2 * (off + n))
HxLen(h) == Len(h) \div 2
Rep(s, n) == FoldLeft(LAMBDA acc, x : acc \o s, "", [i \in 1..n |-> i])
NegDigit == {"8", "9", "a", "b", "c", "d", "e", "f"}
\* the bytes that extend the n-byte little-endian integer h to m bytes
ExtBytes(h, n, m, signed) ==
  IF signed /\ SubSeq(h, 2 * n - 1, 2 * n - 1) \in NegDigit THEN Rep("ff", m - n) ELSE Rep("00", m - n)

\* every significant byte of a value of type t laid out at the same offsets in both
SameValue(t, h1, h2) ==
  LET l == Lay(t) IN \A i \in 1..Len(l.lv) : Hx(h1, l.lv[i].o, l.lv[i].n) = Hx(h2, l.lv[i].o, l.lv[i].n)
=============================================================================
