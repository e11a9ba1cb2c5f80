-------------------------------- MODULE BackGen --------------------------------
(***************************************************************************)
(* Situations of the candidates for the conformance runs: everything before*)
(* the k-th fails in one way, except one that fails in another; everything *)
(* behind works or fails; and what changes later.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Pairs, Later
VARIABLE v
NC == 11
\* how a candidate can fail
Fails(k) == IF k = 1 THEN {"a", "f", "x", "u"}
            ELSE IF k <= 7 THEN {"a", "f", "x", "u", "T", "X", "U"}
            ELSE {"r", "n", "w", "x", "u", "X"}
Good(k) == IF k = 1 THEN {"o"} ELSE {"o", "t"}
Pick(k, c) == IF c \in Fails(k) THEN c ELSE IF c \in {"T", "f"} /\ k >= 8 THEN "w" ELSE IF c \in {"U", "u"} THEN "u" ELSE IF c \in {"X", "x"} THEN "x"
              ELSE IF k = 1 THEN "a" ELSE IF k >= 8 THEN "n" ELSE "a"
Cls == {"a", "f", "x", "u", "T", "X", "U"}
Base == { [k \in 1..NC |-> IF k < w THEN Pick(k, c) ELSE IF k = w THEN g ELSE r] :
            w \in 1..(NC + 1), c \in Cls, g \in {"o", "t"}, r \in {"o", "u"} }
Odd == { [k \in 1..NC |-> IF k = j THEN Pick(k, d) ELSE IF k < w THEN Pick(k, c) ELSE IF k = w THEN "t" ELSE "o"] :
            w \in 2..(NC + 1), j \in 1..NC, c \in Cls, d \in Cls }
Ent == { [k \in 1..NC |-> IF k <= 7 THEN Pick(k, c) ELSE e[k - 7]] :
            c \in {"a", "x"}, e \in [1..4 -> {"o", "r", "n", "w", "x", "u"}] }
Norm(s) == [k \in 1..NC |-> IF k = 1 /\ s[k] = "t" THEN "o" ELSE s[k]]
All == { Norm(s) : s \in Base \cup (IF Pairs THEN Odd ELSE {}) \cup (IF Later THEN Ent ELSE {}) }
Init == v = <<>>
Next == v = <<>> /\ v' \in All
Spec == Init /\ [][Next]_v
Emit == v = <<>> \/ PrintT("C " \o ToJson(v))
===============================================================================
