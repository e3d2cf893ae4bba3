-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* How notmuch new works, in the steps between which other programs may    *)
(* change the mail tree and between which it may be stopped: the root      *)
(* directory and each directory in turn are stat'ed, the clock is read,    *)
(* the directory is listed, new files are added one by one; only then are  *)
(* the files and directories that vanished removed, and only then are the  *)
(* directory times recorded.  Any step may be followed by a commit.        *)
(*                                                                         *)
(* (What the index says about each message is the matter of Cli.tla; this  *)
(* module is about which files it knows of.)  File <<d, n>> is a file of   *)
(* message n in directory d.                                               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Dirs, Msgs, MaxTime, MaxChanges,
          Variant    \* "none", or how the implementation gets it wrong
Root == "root"
NoTime == 99
VARIABLES now, ex, f, mt,       \* the clock; directories, files, times of directories
          C, W,                 \* the index as committed, and as the scan has it
          pc, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq,
          quiet, ok, owed, changes
vars == <<now, ex, f, mt, C, W, pc, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq, quiet, ok, owed, changes>>
tree == <<ex, f, mt>>
scan == <<pc, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>

Holds(F, n) == \E d \in Dirs : <<d, n>> \in F
In(F, d) == {x \in F : x[1] = d}
\* a message that has lost its last file is gone, and its tags with it
Drop(X, F) == [X EXCEPT !.files = @ \ F, !.tagged = {n \in @ : Holds(X.files \ F, n)}]
Add(X, p) == [X EXCEPT !.files = @ \cup {p}, !.dirs = @ \cup {p[1], Root}]
Times(X, d) == IF d \in X.dirs THEN X.times[d] ELSE NoTime

Init == /\ now = 1 /\ ex = Dirs /\ f = {} /\ mt = [d \in Dirs \cup {Root} |-> 0]
        /\ C = [files |-> {}, dirs |-> {}, times |-> [d \in Dirs \cup {Root} |-> NoTime], tagged |-> {}] /\ W = C
        /\ pc = "idle" /\ todo = {} /\ cur = Root /\ fsm = 0 /\ stt = 0 /\ adds = {} /\ rootfsm = 0 /\ rootstt = 0 /\ seen = {} /\ rmF = {} /\ rmD = {} /\ mtq = {}
        /\ quiet = TRUE /\ ok = FALSE /\ owed = {} /\ changes = 0

(* ---- the world *)
Change(F, E, M, touched) ==
  /\ changes < MaxChanges /\ changes' = changes + 1
  /\ f' = F /\ ex' = E /\ mt' = [d \in DOMAIN mt |-> IF d \in M THEN now ELSE mt[d]]
  /\ quiet' = FALSE /\ ok' = FALSE
  \* (a message that moves while a scan runs may look as if it were gone)
  /\ owed' = {n \in owed : Holds(F, n) /\ (pc = "idle" \/ n \notin touched)}
  /\ UNCHANGED <<now, C, W>> /\ UNCHANGED scan
Deliver == \E d \in ex, n \in Msgs : <<d, n>> \notin f /\ Change(f \cup {<<d, n>>}, ex, {d}, {n})
Delete == \E p \in f : Change(f \ {p}, ex, {p[1]}, {p[2]})
Move == \E p \in f, d \in ex : <<d, p[2]>> \notin f /\ Change((f \ {p}) \cup {<<d, p[2]>>}, ex, {d, p[1]}, {p[2]})
Rmdir == \E d \in ex : Change(f \ In(f, d), ex \ {d}, {Root}, {p[2] : p \in In(f, d)})
Mkdir == \E d \in Dirs \ ex : Change(f, ex \cup {d}, {Root, d}, {})
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<ex, f, mt, C, W, quiet, ok, owed, changes>> /\ UNCHANGED scan
Tag == /\ pc = "idle" /\ \E n \in Msgs : Holds(C.files, n) /\ n \notin C.tagged
            /\ C' = [C EXCEPT !.tagged = @ \cup {n}] /\ owed' = IF Holds(f, n) THEN owed \cup {n} ELSE owed
       /\ UNCHANGED <<now, ex, f, mt, W, quiet, ok, changes>> /\ UNCHANGED scan

(* ---- the scan *)
Rest == UNCHANGED <<now, ex, f, mt, C, owed, changes, quiet, ok>>
Start == /\ pc = "idle" /\ pc' = "rootstat" /\ W' = C /\ rmF' = {} /\ rmD' = {} /\ mtq' = {} /\ adds' = {} /\ quiet' = TRUE /\ ok' = FALSE
         /\ UNCHANGED <<now, ex, f, mt, C, owed, changes, todo, cur, fsm, stt, rootfsm, rootstt, seen>>
RootStat == pc = "rootstat" /\ pc' = "roottime" /\ rootfsm' = mt[Root] /\ Rest /\ UNCHANGED <<W, todo, cur, fsm, stt, adds, rootstt, seen, rmF, rmD, mtq>>
RootTime == pc = "roottime" /\ pc' = "rootlist" /\ rootstt' = now /\ Rest /\ UNCHANGED <<W, todo, cur, fsm, stt, adds, rootfsm, seen, rmF, rmD, mtq>>
RootList == pc = "rootlist" /\ pc' = "next" /\ todo' = ex /\ seen' = ex /\ Rest /\ UNCHANGED <<W, cur, fsm, stt, adds, rootfsm, rootstt, rmF, rmD, mtq>>
Fatal == /\ pc' = "idle" /\ C' = W /\ ok' = FALSE /\ UNCHANGED <<now, ex, f, mt, W, owed, changes, quiet, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>
NextDir == /\ pc = "next" /\ todo # {}
           /\ \E d \in todo : IF d \notin ex THEN Fatal
                              ELSE /\ pc' = "time" /\ cur' = d /\ todo' = todo \ {d} /\ fsm' = mt[d]
                                   /\ Rest /\ UNCHANGED <<W, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>
Time == pc = "time" /\ pc' = "list" /\ stt' = now /\ Rest /\ UNCHANGED <<W, todo, cur, fsm, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>
Queue(d, m, t) == IF m = t /\ Variant # "always" THEN mtq ELSE mtq \cup {<<d, m>>}
List == /\ pc = "list"
        /\ IF Times(W, cur) = fsm THEN pc' = "next" /\ Rest /\ UNCHANGED <<W, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>
           ELSE IF cur \notin ex THEN Fatal
           ELSE /\ pc' = "add" /\ adds' = In(f, cur) \ W.files /\ rmF' = rmF \cup (In(W.files, cur) \ f)
                /\ Rest /\ UNCHANGED <<W, todo, cur, fsm, stt, rootfsm, rootstt, seen, rmD, mtq>>
AddOne == /\ pc = "add" /\ adds # {}
          /\ \E p \in adds : adds' = adds \ {p} /\ W' = IF p \in f THEN Add(W, p) ELSE W    \* (or it has vanished)
          /\ Rest /\ UNCHANGED <<pc, todo, cur, fsm, stt, rootfsm, rootstt, seen, rmF, rmD, mtq>>
Added == /\ pc = "add" /\ adds = {} /\ pc' = "next"
         /\ mtq' = IF Variant = "late" THEN Queue(cur, fsm, now) ELSE IF Variant = "restat" /\ cur \in ex /\ mt[cur] # stt THEN Queue(cur, mt[cur], stt) ELSE Queue(cur, fsm, stt)
         /\ W' = IF Variant = "early" /\ cur \in W.dirs /\ fsm # stt THEN [W EXCEPT !.times[cur] = fsm] ELSE W
         /\ Rest /\ UNCHANGED <<todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD>>
RootEnd == /\ pc = "next" /\ todo = {} /\ pc' = "rmf"
           /\ IF Times(W, Root) = rootfsm THEN UNCHANGED <<rmD, mtq>>
              ELSE rmD' = (W.dirs \ {Root}) \ seen /\ mtq' = Queue(Root, rootfsm, rootstt)
           /\ Rest /\ UNCHANGED <<W, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF>>
RmFile == /\ pc = "rmf" /\ rmF # {} /\ \E p \in rmF : rmF' = rmF \ {p} /\ W' = Drop(W, {p})
          /\ Rest /\ UNCHANGED <<pc, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmD, mtq>>
RmDir == /\ pc = "rmf" /\ rmF = {} /\ rmD # {}
         \* its files one by one, then the directory itself
         /\ \E d \in rmD : IF In(W.files, d) # {} THEN \E p \in In(W.files, d) : W' = Drop(W, {p}) /\ UNCHANGED rmD
                           ELSE W' = [W EXCEPT !.dirs = @ \ {d}, !.times[d] = NoTime] /\ rmD' = rmD \ {d}
         /\ Rest /\ UNCHANGED <<pc, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, mtq>>
Record == /\ pc = "rmf" /\ rmF = {} /\ rmD = {} /\ mtq # {}
          /\ \E x \in mtq : mtq' = mtq \ {x} /\ W' = IF x[1] \in W.dirs THEN [W EXCEPT !.times[x[1]] = x[2]] ELSE W
          /\ Rest /\ UNCHANGED <<pc, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD>>
Finish == /\ pc = "rmf" /\ rmF = {} /\ rmD = {} /\ mtq = {} /\ pc' = "idle" /\ C' = W /\ ok' = quiet
          /\ UNCHANGED <<now, ex, f, mt, W, owed, changes, quiet, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>
Scanning == RootStat \/ RootTime \/ RootList \/ NextDir \/ Time \/ List \/ AddOne \/ Added \/ RootEnd \/ RmFile \/ RmDir \/ Record \/ Finish

(* ---- its end before the end *)
Commit == pc # "idle" /\ C # W /\ C' = W /\ UNCHANGED <<now, ex, f, mt, W, owed, changes, quiet, ok>> /\ UNCHANGED scan
Kill == pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<now, ex, f, mt, C, W, owed, changes, quiet, ok, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>
Interrupt == /\ pc \in {"add", "next", "rmf"} /\ pc' = "idle" /\ ok' = FALSE
             /\ C' = IF Variant = "interrupted" THEN [W EXCEPT !.times = [d \in DOMAIN @ |-> IF d \in W.dirs /\ \E x \in mtq : x[1] = d THEN (CHOOSE x \in mtq : x[1] = d)[2] ELSE @[d]]] ELSE W
             /\ UNCHANGED <<now, ex, f, mt, W, owed, changes, quiet, todo, cur, fsm, stt, adds, rootfsm, rootstt, seen, rmF, rmD, mtq>>

Next == Deliver \/ Delete \/ Move \/ Rmdir \/ Mkdir \/ Tick \/ Tag \/ Start \/ Scanning \/ Commit \/ Kill \/ Interrupt
Spec == Init /\ [][Next]_vars

\* P01: a scan that finished while nobody changed the tree knows exactly the files there are
Agrees == ok => C.files = f
\* P02: what the user added to a message is never lost while the message has a file
Kept == owed \subseteq C.tagged /\ (pc # "idle" => owed \subseteq W.tagged)
TypeOK == /\ C.files \subseteq Dirs \X Msgs /\ {p[1] : p \in C.files} \subseteq C.dirs /\ f \subseteq ex \X Msgs
=============================================================================
