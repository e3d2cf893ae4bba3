------------------------------ MODULE MCHooks ------------------------------
(***************************************************************************)
(* A command with its hooks beside other commands: who holds the write     *)
(* lock, what has been committed, and what a hook does to the database.    *)
(***************************************************************************)
EXTENDS Hooks
VARIABLES s, cmd, on, pre, post, well, lock, committed, pending, hook, seen, others
vars == <<s, cmd, on, pre, post, well, lock, committed, pending, hook, seen, others>>
Kinds == {"none", "ok", "fail", "signal", "noexec"}
Init == /\ s = HookStart /\ cmd \in {"new", "insert"} /\ on \in BOOLEAN /\ pre \in Kinds /\ post \in Kinds /\ well \in BOOLEAN
        /\ lock = "none" /\ committed = {} /\ pending = {} /\ hook = "no" /\ seen = {} /\ others = 0
\* the command takes the lock to work, and gives it back before it runs a hook
TakeLock == s.at \in {"work", "start"} /\ lock = "none" /\ lock' = "cmd" /\ UNCHANGED <<s, cmd, on, pre, post, well, committed, pending, hook, seen, others>>
DropLock == s.at = "pre" /\ lock = "cmd" /\ lock' = "none" /\ UNCHANGED <<s, cmd, on, pre, post, well, committed, pending, hook, seen, others>>
Work == s.at = "work" /\ lock = "cmd" /\ pending' = {"work"} /\ s' = HookSteps(s, cmd, on, pre, post, well) /\ UNCHANGED <<cmd, on, pre, post, well, lock, committed, hook, seen, others>>
Commit == s.at = "commit" /\ lock = "cmd" /\ committed' = committed \cup (IF s.ok THEN pending ELSE {}) /\ pending' = {} /\ lock' = "none"
          /\ s' = HookSteps(s, cmd, on, pre, post, well) /\ UNCHANGED <<cmd, on, pre, post, well, hook, seen, others>>
Other == s.at \in {"start", "refused", "nopost"} /\ s' = HookSteps(s, cmd, on, pre, post, well) /\ UNCHANGED <<cmd, on, pre, post, well, lock, committed, pending, hook, seen, others>>
\* a hook starts, writes to the database itself, and ends
HookBegin == s.at \in {"pre", "post"} /\ lock # "cmd" /\ hook = "no" /\ hook' = "runs" /\ seen' = committed /\ UNCHANGED <<s, cmd, on, pre, post, well, lock, committed, pending, others>>
HookLock == hook = "runs" /\ lock = "none" /\ lock' = "hook" /\ UNCHANGED <<s, cmd, on, pre, post, well, committed, pending, hook, seen, others>>
HookWrite == hook = "runs" /\ lock = "hook" /\ committed' = committed \cup {s.at} /\ lock' = "none" /\ hook' = "wrote" /\ UNCHANGED <<s, cmd, on, pre, post, well, pending, seen, others>>
HookDone == hook = "wrote" /\ hook' = "no" /\ s' = HookSteps(s, cmd, on, pre, post, well) /\ UNCHANGED <<cmd, on, pre, post, well, lock, committed, pending, seen, others>>
\* some other command
Outside == others < 2 /\ lock = "none" /\ committed' = committed \cup {IF others = 0 THEN "o1" ELSE "o2"} /\ others' = others + 1 /\ UNCHANGED <<s, cmd, on, pre, post, well, lock, pending, hook, seen>>
Next == TakeLock \/ DropLock \/ Work \/ Commit \/ Other \/ HookBegin \/ HookLock \/ HookWrite \/ HookDone \/ Outside
Spec == Init /\ [][Next]_vars /\ WF_vars(TakeLock) /\ WF_vars(DropLock) /\ WF_vars(Work) /\ WF_vars(Commit) /\ WF_vars(Other) /\ WF_vars(HookBegin) /\ WF_vars(HookLock) /\ WF_vars(HookWrite) /\ WF_vars(HookDone)
Unlocked == hook = "runs" => lock # "cmd"
AfterCommit == s.at = "post" /\ hook # "no" => "work" \in committed
Refused == s.at = "end" /\ cmd = "new" /\ on /\ Unwell(pre) => "work" \notin committed /\ ~s.ok
Once == Len(s.ran) <= 2 /\ (Len(s.ran) = 2 => s.ran = <<"pre", "post">>)
Off == ~on => s.ran = <<>>
Says == s.at = "end" => HooksOK([cmd |-> cmd, on |-> on, pre |-> pre, post |-> post, faulty |-> ~well, ran |-> s.ran, st |-> IF s.ok THEN 0 ELSE 1])
Ends == <>(s.at = "end")
=============================================================================
