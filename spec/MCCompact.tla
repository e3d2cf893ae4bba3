----------------------------- MODULE MCCompact -----------------------------
(***************************************************************************)
(* Sequences of compactions, each of which may fail or be killed at any    *)
(* step, and of commands that make a new database where none is left.      *)
(***************************************************************************)
EXTENDS Compact
CONSTANT MaxRuns
VARIABLES c, pc, b, runs, before
vars == <<c, pc, b, runs, before>>
Init == /\ c \in {[p \in {"main"} |-> "db"], [p \in {"main", "b1"} |-> IF p = "main" THEN "db" ELSE "foreign"],
                  [p \in {"main", "old"} |-> IF p = "main" THEN "db" ELSE "foreign"], [p \in {"main", "work"} |-> IF p = "main" THEN "db" ELSE "part"]}
        /\ pc = "idle" /\ b = "old" /\ runs = 0 /\ before = c
Begin == pc \in {"idle", "done", "failed"} /\ runs < MaxRuns /\ b' \in {"old", "b1", "b2"} /\ pc' = "check" /\ runs' = runs + 1 /\ before' = c /\ c' = c
Step == \E r \in Steps(c, pc, b) : c' = r.c /\ pc' = r.pc /\ UNCHANGED <<b, runs, before>>
Kill == pc \notin {"idle", "done", "failed"} /\ pc' = "idle" /\ UNCHANGED <<c, b, runs, before>>
\* notmuch new, where there is no database any more
Anew == pc \in {"idle", "done", "failed"} /\ Is(c, "main") = "absent" /\ c' = Put(c, "main", "new") /\ pc' = "idle" /\ before' = c' /\ UNCHANGED <<b, runs>>
Next == Begin \/ Step \/ Kill \/ Anew
Spec == Init /\ [][Next]_vars
NeverLost == Whole(c) # {}
ForeignKept == \A p \in DOMAIN before : before[p] = "foreign" => Is(c, p) = "foreign"
Says == LET bb == IF b = "old" THEN "none" ELSE b IN
        /\ pc = "done" /\ runs > 0 => CompactOK(before, c, bb, 0, FALSE)
        /\ pc = "failed" => CompactOK(before, c, bb, 1, TRUE)
        /\ pc \notin {"idle", "done", "failed"} => CompactOK(before, c, bb, -9, FALSE)
=============================================================================
