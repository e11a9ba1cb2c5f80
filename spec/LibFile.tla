-------------------------------- MODULE LibFile --------------------------------
(***************************************************************************)
(* Where the code of static trampolines comes from when the library's file *)
(* may be deleted or replaced at any time.  The first allocation looks for *)
(* a source: the file found at the library's path, if it still holds the   *)
(* loaded code, else a temporary file written from memory, else there are  *)
(* no static trampolines.  Later tables come from the descriptor kept.     *)
(* Safe: no table ever holds anything but the code that was loaded.        *)
(* Bug is a negative control: "trust" does not compare, "reopen" opens the *)
(* path again for every table, "head" compares only the beginning.         *)
(* The histories are replayed with real files.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kinds,     \* what can be put at the path
          N, MaxOps, MaxRep, TmpWorks, Bug
\* path: what is there: "loaded", or a kind
VARIABLES path, src, tabs, live, rep, h
vars == <<path, src, tabs, live, rep, h>>

\* what the loaded code is compared with
Holds(k) == IF k \in {"loaded", "same"} THEN "all"
            ELSE IF k \in {"last", "mid", "short"} THEN "head"
            ELSE IF k \in {"ud", "other", "link"} THEN "none" ELSE "cannot"
Accepted(k) == CASE Bug = "trust" -> Holds(k) # "cannot"
                 [] Bug = "head" -> Holds(k) \in {"all", "head"}
                 [] OTHER -> Holds(k) = "all"
Init == path = "loaded" /\ src = "unset" /\ tabs = <<>> /\ live = 0 /\ rep = 0 /\ h = <<>>
\* source chosen at the first allocation; "mem" is the temporary file
Choose == IF src # "unset" THEN src
          ELSE IF Accepted(path) THEN path ELSE IF TmpWorks THEN "mem" ELSE "none"
Content(s) == IF s = "mem" THEN "all" ELSE Holds(IF Bug = "reopen" THEN path ELSE s)
Cap == Len(tabs) * N
Alloc == /\ Len(h) < MaxOps
         /\ src' = Choose
         /\ tabs' = IF src' = "none" \/ live < Cap THEN tabs ELSE Append(tabs, Content(src'))
         /\ live' = live + 1
         /\ h' = Append(h, "a")
         /\ UNCHANGED <<path, rep>>
FreeOne == /\ Len(h) < MaxOps /\ live > 0
           /\ live' = live - 1
           /\ tabs' = IF Len(tabs) > 1 /\ live' <= Cap - 2 * N THEN SubSeq(tabs, 1, Len(tabs) - 1) ELSE tabs
           /\ h' = Append(h, "f")
           /\ UNCHANGED <<path, src, rep>>
Replace == /\ Len(h) < MaxOps /\ rep < MaxRep
           /\ \E k \in Kinds : path' = k /\ h' = Append(h, k)
           /\ rep' = rep + 1
           /\ UNCHANGED <<src, tabs, live>>
Next == Alloc \/ FreeOne \/ Replace
Spec == Init /\ [][Next]_vars
Safe == \A k \in DOMAIN tabs : tabs[k] = "all"
Emit == Len(h) < MaxOps \/ PrintT("H " \o ToJson(h))
===============================================================================
