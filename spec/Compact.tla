------------------------------ MODULE Compact ------------------------------
(***************************************************************************)
(* notmuch compact, as the copies of the database it leaves.               *)
(*                                                                         *)
(* A place is a path at which a copy may be.  c maps the places that exist *)
(* to what is there: "db" (everything, complete), "part" (not usable or    *)
(* not complete), "new" (an empty database made since), or "foreign".      *)
(* A compaction is asked to leave the old database at place b, or at none  *)
(* (b = "old", which is removed when all is done).                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

Places == {"main", "work", "old", "b1", "b2"}
Put(c, p, x) == [q \in DOMAIN c \cup {p} |-> IF q = p THEN x ELSE c[q]]
Without(c, p) == [q \in DOMAIN c \ {p} |-> c[q]]
Is(c, p) == IF p \in DOMAIN c THEN c[p] ELSE "absent"
\* The steps of one compaction: from its program counter to the next.
\* fail: the step cannot be done, and the compaction ends there.
Steps(c, pc, b) ==
  CASE pc = "check" -> IF Is(c, "main") = "absent" \/ Is(c, b) # "absent" THEN {[c |-> c, pc |-> "failed"]} ELSE {[c |-> c, pc |-> "clear"]}
    [] pc = "clear" -> {[c |-> Without(c, "work"), pc |-> "copy"], [c |-> c, pc |-> "failed"]}
    [] pc = "copy"  -> {[c |-> Put(c, "work", "part"), pc |-> "copied"], [c |-> c, pc |-> "failed"]}
    [] pc = "copied" -> {[c |-> Put(c, "work", Is(c, "main")), pc |-> "aside"], [c |-> c, pc |-> "failed"]}
    [] pc = "aside" -> {[c |-> Put(Without(c, "main"), b, Is(c, "main")), pc |-> "swap"], [c |-> c, pc |-> "failed"]}
    [] pc = "swap"  -> {[c |-> Put(Without(c, "work"), "main", Is(c, "work")), pc |-> IF b = "old" THEN "tidy" ELSE "done"], [c |-> c, pc |-> "failed"]}
    [] pc = "tidy"  -> {[c |-> Put(c, b, "part"), pc |-> "tidied"], [c |-> c, pc |-> "failed"]}
    [] pc = "tidied" -> {[c |-> Without(c, b), pc |-> "done"], [c |-> c, pc |-> "failed"]}
    [] OTHER -> {}

Whole(c) == {p \in DOMAIN c : c[p] = "db"}
(***************************************************************************)
(* What may be seen of one compaction: before and after are the maps c     *)
(* above, rc its exit status (negative: killed), faulty whether one of its *)
(* operations was made to fail.                                            *)
(***************************************************************************)
CompactOK(before, after, b, rc, faulty) ==
  /\ Whole(before) # {} => Whole(after) # {}
  \* nothing is done to what is elsewhere
  /\ \A p \in DOMAIN before \ {"main", "work", IF b = "none" THEN "old" ELSE b} : Is(after, p) = before[p]
  \* nothing is put over, or instead of, what is there already
  /\ (IF b = "none" THEN "old" ELSE b) \in DOMAIN before => \A p \in {"main", IF b = "none" THEN "old" ELSE b} : Is(after, p) = Is(before, p) \/ p = "work"
  /\ rc = 0 => /\ "main" \in DOMAIN before /\ (IF b = "none" THEN "old" ELSE b) \notin DOMAIN before
               /\ Is(after, "main") = before["main"]
               /\ IF b = "none" THEN "old" \notin DOMAIN after ELSE Is(after, b) = before["main"]
               /\ "work" \notin DOMAIN after
  /\ rc > 0 => faulty \/ "main" \notin DOMAIN before \/ (IF b = "none" THEN "old" ELSE b) \in DOMAIN before
=============================================================================
