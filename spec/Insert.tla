------------------------------- MODULE Insert -------------------------------
(***************************************************************************)
(* notmuch insert.  Besides its effect on the mail tree and the database   *)
(* the order of its file-system operations is specified: the message must  *)
(* be complete and on disk before it gets its name in "new", and that name *)
(* on disk before success is reported.                                     *)
(*                                                                         *)
(* An operation is [op, p, q, n, ok]: its kind, path(s), size, success.    *)
(***************************************************************************)
EXTENDS Dump

\* The state of the file that is being delivered; name: its path now, <<>> before there is one.
Start == [name |-> <<>>, tmp |-> <<>>, written |-> 0, synced |-> FALSE, dirsynced |-> FALSE, made |-> {}, bad |-> {}]
FsStep(s, o, size, folder) ==
  LET new == Append(folder, "new") tmp == Append(folder, "tmp") IN
  IF ~o.ok THEN s
  ELSE CASE o.op = "open" /\ DirOf(o.p) = tmp /\ s.name = <<>> -> [s EXCEPT !.name = o.p, !.tmp = o.p, !.written = 0, !.synced = FALSE]
         [] o.op = "open" /\ DirOf(o.p) # tmp -> [s EXCEPT !.bad = @ \cup {<<"created", o.p>>}]
         [] o.op = "write" /\ o.p = s.name -> [s EXCEPT !.written = @ + o.n, !.synced = FALSE, !.bad = IF s.name # s.tmp THEN @ \cup {"written in place"} ELSE @]
         [] o.op = "write" /\ o.p # s.name -> [s EXCEPT !.bad = @ \cup {<<"wrote to", o.p>>}]
         [] o.op = "fsync" /\ o.p = s.name /\ o.p # <<>> -> [s EXCEPT !.synced = TRUE]
         [] o.op = "mkdir" -> [s EXCEPT !.made = @ \cup {o.p}]
         [] o.op = "fsync" -> [s EXCEPT !.made = {d \in @ : DirOf(d) # o.p}, !.dirsynced = IF o.p = new THEN s.name # s.tmp ELSE @]
         [] o.op = "rename" /\ o.p = s.name /\ s.name = s.tmp ->
              [s EXCEPT !.name = o.q, !.bad = @ \cup (IF s.written # size THEN {"incomplete"} ELSE {}) \cup (IF ~s.synced THEN {"not synced"} ELSE {})
                                                \cup (IF DirOf(o.q) # new THEN {"elsewhere"} ELSE {})]
         [] o.op = "rename" /\ o.p = s.name -> [s EXCEPT !.name = o.q]
         [] o.op = "link" -> [s EXCEPT !.bad = @ \cup {"link"}]
         [] o.op \in {"trunc", "symlink", "rmdir"} -> [s EXCEPT !.bad = @ \cup {<<o.op, o.p>>}]
         [] o.op = "unlink" /\ o.p = s.name -> [s EXCEPT !.name = <<>>]
         [] o.op = "unlink" /\ o.p # s.name -> [s EXCEPT !.bad = @ \cup {<<"removed", o.p>>}]
         [] OTHER -> s
RECURSIVE FsRun(_, _, _, _)
FsRun(s, ops, size, folder) == IF ops = <<>> THEN s ELSE FsRun(FsStep(s, Head(ops), size, folder), Tail(ops), size, folder)
\* the path under which the message first became visible
Visible1(ops, folder) == LET R == {i \in 1..Len(ops) : ops[i].op = "rename" /\ ops[i].ok /\ DirOf(ops[i].p) = Append(folder, "tmp")} IN
                         IF R = {} THEN <<>> ELSE ops[CHOOSE i \in R : \A j \in R : i <= j].q
\* (made: the directories made whose names are not yet on disk)
DurableOK(s) == s.bad = {} /\ s.name # s.tmp /\ s.dirsynced /\ s.made \cap Prefixes(DirOf(s.name)) = {}

\* Folders as asked for: their components without empty ones and dots.
Contained(parts) == \A i \in 1..Len(parts) : parts[i] # ".."
MaildirDirs(f) == Prefixes(Append(f, "cur")) \cup Prefixes(Append(f, "new")) \cup Prefixes(Append(f, "tmp"))
CanDeliver(T, f) == {Append(f, "tmp"), Append(f, "new")} \subseteq T.d
CanCreate(T, f) == \A d \in MaildirDirs(f) : d \notin DOMAIN T.f

PlainScan == [tags |-> {}, sync |-> FALSE, verb |-> {}, rx |-> {}]
\* what a delivery to p with content c leaves: e gives folder, create, tags, ops, sync
WithFile(T, e, p, c) == [f |-> Upd(T.f, p, c), d |-> T.d \cup IF e.create THEN MaildirDirs(e.folder) ELSE {}]
AllOps(e) == [i \in 1..Len(e.tags) |-> [add |-> TRUE, t |-> e.tags[i]]] \o e.ops
InsertDb(U, db, T1, e, p, o) ==
  LET m == U.contents[T1.f[p]].mid
      d == ScanTo(U, db, T1, PlainScan, {p}, {}, o)
  IN IF m \in DOMAIN db.mail THEN d ELSE [d EXCEPT !.mail[m].tags = ApplyOps(@, AllOps(e))]
\* (A file whose renaming fails keeps its name.)
Inserted(U, db, T, e, p, o, faulty) ==
  LET m == U.contents[e.cid].mid T1 == WithFile(T, e, p, e.cid) r == [db |-> InsertDb(U, db, T1, e, p, o), t |-> T1] IN
  IF ~e.sync THEN {r}
  ELSE IF faulty THEN UNION {{Moved(r, m, [q \in Q |-> c[q]]) : Q \in SUBSET DOMAIN c} : c \in Choices(Targets(U, r.db, r.t, m))}
  ELSE SyncFlags(U, r, m)
=============================================================================
