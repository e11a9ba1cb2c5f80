-------------------------------- MODULE Backing --------------------------------
(***************************************************************************)
(* The search for a file to map executable pages from.  Candidates stand   *)
(* in the documented order; the last ones come from two mount tables.      *)
(* The machine is the cursor of src/closures.c: options 1..NOpt (the two   *)
(* last ones are tables walked entry by entry), opening, a trial           *)
(* allocation and mapping, and going on behind a candidate that failed.    *)
(* Checked: whatever the states of the candidates are, the one kept is the *)
(* first that works, each is tried at most once and in order, nothing is   *)
(* left open, failure means that none works.  Bug is a negative control:   *)
(* "skip" moves the cursor on twice after a failure, "again" starts over,  *)
(* "give" gives up at the first failed trial.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS NSingle,      \* candidates tried once: memory file, directories
          NEnt,         \* entries in each of the two mount tables
          Classes,      \* "w" works, "n" cannot be opened, "b" opens, fails the trial
          Bug
NC == NSingle + 2 * NEnt
NOpt == NSingle + 2
VARIABLES cs, pc, idx, ent, fd, open, att, kept
vars == <<cs, pc, idx, ent, fd, open, att, kept>>

Works(c, k) == c[k] = "w"
FirstWorking(c) == IF \E k \in 1..NC : Works(c, k) THEN CHOOSE k \in 1..NC : Works(c, k) /\ \A j \in 1..(k - 1) : ~Works(c, j) ELSE 0

Init == /\ cs \in [1..NC -> Classes]
        /\ pc = "open" /\ idx = 1 /\ ent = 0 /\ fd = 0 /\ open = {} /\ att = <<>> /\ kept = 0
Cand(i, e) == IF i <= NSingle THEN i ELSE NSingle + (i - NSingle - 1) * NEnt + e
Adv == /\ idx' = (IF idx = NOpt THEN 1 ELSE idx + 1) /\ ent' = 0
       /\ pc' = (IF idx = NOpt THEN "fail" ELSE "open")
Open == pc = "open" /\ UNCHANGED <<cs, kept>> /\
  IF idx <= NSingle
  THEN IF cs[idx] = "n" THEN Adv /\ UNCHANGED <<fd, open, att>>
       ELSE /\ fd' = idx /\ open' = open \cup {idx} /\ att' = Append(att, idx)
            /\ idx' = idx + 1 /\ ent' = 0 /\ pc' = "trial"
  ELSE LET E == {e \in (ent + 1)..NEnt : cs[Cand(idx, e)] # "n"} IN
       IF E = {} THEN Adv /\ UNCHANGED <<fd, open, att>>
       ELSE LET e == CHOOSE e \in E : \A x \in E : e <= x IN
            /\ fd' = Cand(idx, e) /\ open' = open \cup {Cand(idx, e)} /\ att' = Append(att, Cand(idx, e))
            /\ ent' = e /\ UNCHANGED idx /\ pc' = "trial"
Trial == pc = "trial" /\ UNCHANGED <<cs, att>> /\
  IF cs[fd] = "w" THEN kept' = fd /\ pc' = "done" /\ UNCHANGED <<idx, ent, fd, open>>
  ELSE /\ open' = open \ {fd} /\ fd' = 0 /\ UNCHANGED kept
       /\ CASE Bug = "skip" -> Adv
            [] Bug = "again" -> IF Len(att) > NC + 2 THEN pc' = "fail" /\ UNCHANGED <<idx, ent>> ELSE idx' = 1 /\ ent' = 0 /\ pc' = "open"
            [] Bug = "give" -> pc' = "fail" /\ UNCHANGED <<idx, ent>>
            [] OTHER -> pc' = "open" /\ UNCHANGED <<idx, ent>>
Next == Open \/ Trial
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Found == pc = "done" => kept = FirstWorking(cs)
GaveUp == pc = "fail" => FirstWorking(cs) = 0
Order == \A i, j \in DOMAIN att : i < j => att[i] < att[j]
Closed == pc \in {"open", "fail"} => open = {}
Ends == <>(pc \in {"done", "fail"})
===============================================================================
