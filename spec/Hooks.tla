------------------------------- MODULE Hooks -------------------------------
(***************************************************************************)
(* Hooks of notmuch new and notmuch insert.                                *)
(*                                                                         *)
(* A hook is absent ("none"), runs and says yes ("ok") or no ("fail"), is  *)
(* killed ("signal"), or cannot be run ("noexec").                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Runs(kind) == kind \in {"ok", "fail", "signal"}
Unwell(kind) == kind \in {"fail", "signal", "noexec"}
Names(cmd) == [pre |-> cmd = "new", post |-> TRUE]
\* The steps of a command: where it is, which hooks have run, its status.
\* on: whether hooks are enabled; well: whether what the command itself does succeeds
HookSteps(s, cmd, on, pre, post, well) ==
  CASE s.at = "start" -> [s EXCEPT !.at = IF on /\ Names(cmd).pre /\ pre # "none" THEN (IF Runs(pre) THEN "pre" ELSE "refused") ELSE "work"]
    [] s.at = "pre"   -> [s EXCEPT !.ran = Append(@, "pre"), !.at = IF Unwell(pre) THEN "refused" ELSE "work"]
    [] s.at = "refused" -> [s EXCEPT !.ok = FALSE, !.at = "end"]
    [] s.at = "work"  -> [s EXCEPT !.ok = well, !.at = "commit"]
    [] s.at = "commit" -> [s EXCEPT !.at = IF s.ok /\ on THEN (IF Runs(post) THEN "post" ELSE IF post = "noexec" THEN "nopost" ELSE "end") ELSE "end"]
    [] s.at = "post"  -> [s EXCEPT !.ran = Append(@, "post"), !.ok = (cmd = "insert" \/ ~Unwell(post)), !.at = "end"]
    [] s.at = "nopost" -> [s EXCEPT !.ok = (cmd = "insert"), !.at = "end"]
HookStart == [at |-> "start", ran |-> <<>>, ok |-> TRUE]
RECURSIVE HookEnd(_, _, _, _, _, _)
HookEnd(s, cmd, on, pre, post, well) == IF s.at = "end" THEN s ELSE HookEnd(HookSteps(s, cmd, on, pre, post, well), cmd, on, pre, post, well)
\* what was seen of a command
HooksOK(e) ==
  \/ e.faulty /\ e.ran = <<>> /\ e.st # 0
  \/ \E well \in IF e.faulty THEN {TRUE, FALSE} ELSE {TRUE} :
       LET s == HookEnd(HookStart, e.cmd, e.on, e.pre, e.post, well) IN e.ran = s.ran /\ (e.st = 0) = s.ok
=============================================================================
