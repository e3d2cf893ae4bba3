------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configuration: which file and which database a command uses, what a     *)
(* key is worth, and what setting one changes.                             *)
(*                                                                         *)
(* The world W has                                                         *)
(*   files  path of a configuration file |-> (key |-> value)               *)
(*   dirs   the directories there are                                      *)
(*   dbs    path |-> [nested, conf, rel]: the databases, whether below     *)
(*          .notmuch, the settings stored in them, the files they know     *)
(* An environment E gives arg (--config), conf, prof, db, xdgc, xdgd,      *)
(* maildir, name, email as <<>> (unset) or <<value>>, home, and the        *)
(* account's gecos and login.  Keys and values are strings.                *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets, TLC

Or(o, d) == IF o = <<>> THEN d ELSE o[1]
At(s, i) == SubSeq(s, i, i)
Upto(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoConf == [x \in {} |-> ""]
Profile(E) == Or(E.prof, "default")

(* ---- the configuration file ---- *)
XdgConf(E) == Or(E.xdgc, E.home \o "/.config") \o "/notmuch/" \o Profile(E)
XdgData(E) == Or(E.xdgd, E.home \o "/.local/share") \o "/notmuch/" \o Profile(E)
ConfPath(W, E) ==
  IF E.arg # <<>> THEN E.arg[1]
  ELSE IF E.conf # <<>> THEN E.conf[1]
  ELSE IF (XdgConf(E) \o "/config") \in DOMAIN W.files THEN XdgConf(E) \o "/config"
  ELSE E.home \o "/.notmuch-config" \o (IF E.prof = <<>> THEN "" ELSE "." \o E.prof[1])
\* an empty --config stands for no file at all
NoFile(E) == E.arg = <<"">>
HasConf(W, E) == NoFile(E) \/ ConfPath(W, E) \in DOMAIN W.files
Conf(W, E) == IF ~NoFile(E) /\ ConfPath(W, E) \in DOMAIN W.files THEN W.files[ConfPath(W, E)] ELSE NoConf

(* ---- the database ---- *)
Paths == {"database.path", "database.mail_root", "database.hook_dir", "database.backup_dir"}
Expand(E, k, v) == IF k \in Paths /\ ~Upto(v, "/") THEN E.home \o "/" \o v ELSE v
\* <<>>: there is none to be found
DbPath(W, E) ==
  IF E.db # <<>> THEN E.db
  ELSE IF "database.path" \in DOMAIN Conf(W, E) THEN <<Expand(E, "database.path", Conf(W, E)["database.path"])>>
  ELSE IF XdgData(E) \in W.dirs THEN <<XdgData(E)>>
  ELSE IF E.maildir # <<>> THEN E.maildir
  ELSE IF (E.home \o "/mail") \in W.dirs THEN <<E.home \o "/mail">>
  ELSE <<>>
Opens(W, E) == DbPath(W, E) # <<>> /\ DbPath(W, E)[1] \in DOMAIN W.dbs
Db(W, E) == W.dbs[DbPath(W, E)[1]]
\* mail and database are in different places and nobody says where the mail is
Split(W, E) == E.db = <<>> /\ "database.path" \notin DOMAIN Conf(W, E) /\ XdgData(E) \in W.dirs
Homeless(W, E) == Split(W, E) /\ "database.mail_root" \notin DOMAIN Conf(W, E) /\ ~(Opens(W, E) /\ "database.mail_root" \in DOMAIN Db(W, E).conf)

(* ---- what a key is worth ---- *)
Beside(W, E, x) == LET p == DbPath(W, E)[1] IN (IF Db(W, E).nested THEN p \o "/.notmuch" ELSE p) \o "/" \o x
Defaults(W, E) ==
  LET always == [k \in {"search.exclude_tags", "new.ignore", "index.as_text", "new.tags", "maildir.synchronize_flags", "database.autocommit", "user.name", "user.primary_email"} |->
        CASE k = "new.tags" -> "unread;inbox"
          [] k = "maildir.synchronize_flags" -> "true"
          [] k = "database.autocommit" -> "8000"
          [] k = "user.name" -> Or(E.name, E.gecos)
          [] k = "user.primary_email" -> Or(E.email, E.login \o "@localhost")
          [] OTHER -> ""]
      dirs == [k \in {"database.hook_dir", "database.backup_dir"} |->
        IF k = "database.hook_dir" THEN (IF (XdgConf(E) \o "/hooks") \in W.dirs THEN XdgConf(E) \o "/hooks" ELSE Beside(W, E, "hooks"))
        ELSE IF (XdgData(E) \o "/backups") \in W.dirs THEN XdgData(E) \o "/backups" ELSE Beside(W, E, "backups")]
  IN IF Opens(W, E) THEN dirs @@ always ELSE always
\* file before database before default
Layers(W, E) ==
  LET f == [k \in DOMAIN Conf(W, E) |-> Expand(E, k, Conf(W, E)[k])]
      d == IF Opens(W, E) THEN [k \in DOMAIN Db(W, E).conf |-> Expand(E, k, Db(W, E).conf[k])] ELSE NoConf
  IN f @@ d @@ Defaults(W, E)
\* The database in use is the one the settings name, whoever chose it.
PathOf(W, E) ==
  IF Opens(W, E) THEN DbPath(W, E)[1]
  ELSE IF "database.path" \in DOMAIN Conf(W, E) THEN Expand(E, "database.path", Conf(W, E)["database.path"])
  ELSE IF DbPath(W, E) # <<>> /\ DbPath(W, E)[1] \in W.dirs THEN DbPath(W, E)[1]
  ELSE Or(E.maildir, E.home \o "/mail")
Settings(W, E) ==
  LET s == With(Layers(W, E), "database.path", PathOf(W, E))
  IN IF "database.mail_root" \in DOMAIN s THEN s ELSE With(s, "database.mail_root", PathOf(W, E))
MailRoot(W, E) == Settings(W, E)["database.mail_root"]

(* ---- lists ---- *)
Space == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE Skip(_, _), TokEnd(_, _), TrimEnd(_), Items(_)
Skip(s, i) == IF i <= Len(s) /\ (At(s, i) = ";" \/ At(s, i) \in Space) THEN Skip(s, i + 1) ELSE i
\* where the item that begins a string ends: at a ";" not behind a backslash
TokEnd(s, i) == IF i > Len(s) \/ (At(s, i) = ";" /\ ~(i > 1 /\ At(s, i - 1) = "\\")) THEN i ELSE TokEnd(s, i + 1)
TrimEnd(s) == IF Len(s) > 0 /\ At(s, Len(s)) \in Space THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
Items(s) == LET t == SubSeq(s, Skip(s, 1), Len(s)) e == TokEnd(t, 1)
            IN IF t = "" THEN <<>> ELSE <<TrimEnd(SubSeq(t, 1, e - 1))>> \o Items(SubSeq(t, e, Len(t)))
RECURSIVE Listed(_)
Listed(vs) == IF vs = <<>> THEN "" ELSE vs[1] \o ";" \o Listed(Tail(vs))

(* ---- setting ---- *)
RECURSIVE DotAt(_, _), LastDot(_, _)
DotAt(s, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = "." THEN i ELSE DotAt(s, i + 1)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = "." THEN i ELSE LastDot(s, i - 1)
Group(k) == SubSeq(k, 1, DotAt(k, 1) - 1)
Name(k) == SubSeq(k, DotAt(k, 1) + 1, Len(k))
Holds(s, C) == \E i \in 1..Len(s) : At(s, i) \in C
Sectioned(k) == DotAt(k, 1) > 0 /\ DotAt(k, 1) < Len(k)
\* what a file can hold
CanHold(k, vs) ==
  /\ Group(k) # "" /\ ~Holds(Group(k), {"[", "]", "\n", "\t"})
  /\ ~Holds(Name(k), {"=", "[", "]", "\n"}) /\ At(Name(k), 1) \notin {" ", "\t", "#"} /\ At(Name(k), Len(Name(k))) \notin {" ", "\t"}
  /\ (Len(vs) > 1 => \A i \in 1..Len(vs) : ~Holds(vs[i], {";"}))
\* names of query fields
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
FieldName(k) == LET n == SubSeq(k, LastDot(k, Len(k)) + 1, Len(k)) IN n # "" /\ At(n, 1) \notin Lower /\ ~Holds(n, {" ", "-", "+", ":", "=", "[", "]", "#", "/", ";"})
Reserved(k) == Upto(k, "built_with.") \/ ((Upto(k, "index.header.") \/ Upto(k, "squery.")) /\ ~FieldName(k))
\* utf8: whether the values are text at all
MaySet(W, E, k, vs, utf8) == HasConf(W, E) /\ ~NoFile(E) /\ ~Reserved(k) /\ Sectioned(k) /\ (vs # <<>> => utf8 /\ CanHold(k, vs))
SetFile(c, k, vs) == IF vs = <<>> THEN Less(c, k) ELSE IF Len(vs) = 1 THEN With(c, k, vs[1]) ELSE With(c, k, Listed(vs))
AfterSet(W, E, k, vs) == [W EXCEPT !.files[ConfPath(W, E)] = SetFile(@, k, vs)]
MaySetDb(W, E, k, vs) == HasConf(W, E) /\ ~Reserved(k) /\ Len(vs) <= 1 /\ Opens(W, E)
AfterSetDb(W, E, k, vs) == [W EXCEPT !.dbs[DbPath(W, E)[1]].conf = IF vs = <<>> \/ vs[1] = "" THEN Less(@, k) ELSE With(@, k, vs[1])]
=============================================================================
