-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The commands that change a database and the mail tree together.         *)
(*                                                                         *)
(* A mail tree T is a record                                               *)
(*   f : path -> content id, for every regular file                        *)
(*   d : the set of directories                                            *)
(*                                                                         *)
(* Where the specification leaves a choice to the implementation (the id   *)
(* of a new thread, which of several new files is read first), the         *)
(* operators take the observed database o and follow it if the choice it   *)
(* shows is allowed; a forbidden one leaves a difference.                  *)
(***************************************************************************)
EXTENDS Query

NoTree == [f |-> Empty, d |-> {}]
Content(U, cid) ==
  LET c == U.contents[cid] IN
  [cid |-> cid, mid |-> c.mid, refs |-> SeqRange(c.refs), words |-> SeqRange(c.words),
   auto |-> SeqRange(c.auto), ok |-> c.ok]

(***************************************************************************)
(* Maildir names.  U.names tells for each file name its base, whether it   *)
(* has an info part, its flags, and whether these are in order.            *)
(***************************************************************************)
Nm(U, p) == LET c == p[Len(p)] IN IF c \in DOMAIN U.names THEN U.names[c] ELSE [base |-> c, info |-> FALSE, flags |-> <<>>, canon |-> TRUE]
InMaildir(p) == LET d == DirOf(p) IN d # <<>> /\ d[Len(d)] \in {"cur", "new"}
InNew(p) == InMaildir(p) /\ p[Len(p) - 1] = "new"
Flags(U, p) == IF InMaildir(p) THEN SeqRange(Nm(U, p).flags) ELSE {}
\* the name says something about flags
Tells(U, p) == InMaildir(p) /\ (Nm(U, p).info \/ InNew(p))
MirrorFlags == {"D", "F", "P", "R", "S"}
MirrorTags == {"draft", "flagged", "passed", "replied", "unread"}
TagsOfFlags(F) == (IF "D" \in F THEN {"draft"} ELSE {}) \cup (IF "F" \in F THEN {"flagged"} ELSE {}) \cup (IF "P" \in F THEN {"passed"} ELSE {})
                  \cup (IF "R" \in F THEN {"replied"} ELSE {}) \cup (IF "S" \in F THEN {} ELSE {"unread"})
FlagsOfTags(T) == (IF "draft" \in T THEN {"D"} ELSE {}) \cup (IF "flagged" \in T THEN {"F"} ELSE {}) \cup (IF "passed" \in T THEN {"P"} ELSE {})
                  \cup (IF "replied" \in T THEN {"R"} ELSE {}) \cup (IF "unread" \in T THEN {} ELSE {"S"})
\* flags to tags: the five tags become the union of the flags over all files
FromFlags(U, tags, files) ==
  IF ~\E p \in files : Tells(U, p) THEN tags
  ELSE (tags \ MirrorTags) \cup TagsOfFlags(UNION {Flags(U, p) : p \in files})
\* the flags as they are written: in order
RECURSIVE InOrder(_, _)
InOrder(order, F) == IF order = <<>> THEN "" ELSE (IF Head(order) \in F THEN Head(order) ELSE "") \o InOrder(Tail(order), F)
\* tags to flags: where the file p of a message with these tags belongs (itself: it stays)
Rightful(U, p, tags) ==
  LET n == Nm(U, p)
      fl == SeqRange(n.flags)
      want == (fl \ MirrorFlags) \cup FlagsOfTags(tags)
      dir == LET d == DirOf(p) IN IF d[Len(d)] = "new" THEN Append(SubSeq(d, 1, Len(d) - 1), "cur") ELSE d
  IN IF ~InMaildir(p) \/ (n.info /\ ~n.canon) \/ (InNew(p) /\ ~n.info /\ want = fl) THEN p
     ELSE Append(dir, n.base \o ":2," \o InOrder(U.order, want))
\* The files of message m that can move, and where to.  None is moved over a file that exists, or into
\* a directory that does not.
Targets(U, db, T, m) ==
  LET tgt == [p \in db.mail[m].files |-> Rightful(U, p, db.mail[m].tags)]
      can == {p \in DOMAIN tgt : tgt[p] # p /\ p \in DOMAIN T.f /\ DirOf(tgt[p]) \in T.d /\ tgt[p] \notin DOMAIN T.f /\ tgt[p] \notin T.d}
  IN [p \in can |-> tgt[p]]
\* Of several files with the same rightful name any one gets it.
Choices(g) == LET Q == Range(g) IN IF Cardinality(Q) = Cardinality(DOMAIN g) THEN {[q \in Q |-> CHOOSE p \in DOMAIN g : g[p] = q]}
                                   ELSE {c \in [Q -> DOMAIN g] : \A q \in Q : g[c[q]] = q}
Moved(r, m, c) ==
  LET goes == Range(c) to == DOMAIN c IN
  [db |-> [r.db EXCEPT !.mail[m].files = (@ \ goes) \cup to, !.dirs = [d \in DOMAIN @ \cup UNION {Prefixes(DirOf(q)) : q \in to} |-> IF d \in DOMAIN @ THEN @[d] ELSE 0]],
   t |-> [r.t EXCEPT !.f = [q \in (DOMAIN @ \ goes) \cup to |-> IF q \in to THEN @[c[q]] ELSE @[q]]]]
\* all renames for message m, given its tags: the possible results
SyncFlags(U, r, m) == {Moved(r, m, c) : c \in Choices(Targets(U, r.db, r.t, m))}
\* The messages in M, one after the other.  Where they get in each other's way the order matters and may be any.
Astray(U, r, m) == {p \in r.db.mail[m].files \cap DOMAIN r.t.f : Rightful(U, p, r.db.mail[m].tags) # p}
Has2(U, r, m) == Astray(U, r, m) \cup {Rightful(U, p, r.db.mail[m].tags) : p \in Astray(U, r, m)}
RECURSIVE AnyOrder(_, _, _)
AnyOrder(U, r, M) == IF M = {} THEN {r} ELSE UNION {UNION {AnyOrder(U, x, M \ {m}) : x \in SyncFlags(U, r, m)} : m \in M}
RECURSIVE SomeOrder(_, _, _)
SomeOrder(U, R, M) == IF M = {} THEN R ELSE LET m == CHOOSE x \in M : TRUE IN SomeOrder(U, UNION {SyncFlags(U, r, m) : r \in R}, M \ {m})
SyncAll(U, r, M) ==
  LET mov == {m \in M : Astray(U, r, m) # {}}
      clash == {m \in mov : \E n \in mov \ {m} : Has2(U, r, m) \cap Has2(U, r, n) # {}}
  IN UNION {AnyOrder(U, x, clash) : x \in SomeOrder(U, {r}, mov \ clash)}

(***************************************************************************)
(* notmuch tag.  A line is [ops, all, q]: ops in the order written.        *)
(***************************************************************************)
RECURSIVE ApplyOps(_, _)
ApplyOps(tags, ops) == IF ops = <<>> THEN tags ELSE ApplyOps(IF Head(ops).add THEN tags \cup {Head(ops).t} ELSE tags \ {Head(ops).t}, Tail(ops))
NoOp(tags, op) == op.add = (op.t \in tags)
TagLine(U, r, L, sync) ==
  LET db == r.db
      M == Matching(U, db, L.q)
      new == [m \in M |-> ApplyOps(IF L.all THEN {} ELSE db.mail[m].tags, L.ops)]
      d1 == [db EXCEPT !.mail = [m \in DOMAIN @ |-> IF m \in M THEN [@[m] EXCEPT !.tags = new[m]] ELSE @[m]]]
      \* Messages for which the line says nothing new need not be looked at.
      idle == {m \in M : new[m] = db.mail[m].tags /\ \A i \in 1..Len(L.ops) : NoOp(db.mail[m].tags, L.ops[i])}
      late == {m \in idle : Astray(U, [db |-> d1, t |-> r.t], m) # {}}
  IN IF sync THEN UNION {SyncAll(U, [db |-> d1, t |-> r.t], (M \ idle) \cup X) : X \in SUBSET late} ELSE {[db |-> d1, t |-> r.t]}
RECURSIVE TagLines(_, _, _, _)
TagLines(U, R, Ls, sync) == IF Ls = <<>> THEN R ELSE TagLines(U, UNION {TagLine(U, r, Head(Ls), sync) : r \in R}, Tail(Ls), sync)

(***************************************************************************)
(* notmuch new.  cf = [tags, sync, verb, rx]: new.tags, whether flags are  *)
(* synchronized, the names ignored, and the paths some expression matches. *)
(***************************************************************************)
MaildirAt(T, d) == \A x \in {"cur", "new", "tmp"} : Append(d, x) \in T.d
Ignored(T, cf, p) ==
  \E i \in 1..Len(p) :
    \/ p[i] \in cf.verb
    \/ SubSeq(p, 1, i) \in cf.rx
    \/ p[i] = "tmp" /\ SubSeq(p, 1, i) \in T.d /\ MaildirAt(T, SubSeq(p, 1, i - 1))
Visible(U, T, cf) == {p \in DOMAIN T.f : U.contents[T.f[p]].ok /\ ~Ignored(T, cf, p)}
Indexed(db) == UNION {db.mail[m].files : m \in DOMAIN db.mail}

Join(classes, X) == {c \in classes : c \cap X = {}} \cup {X \cup UNION {c \in classes : c \cap X # {}}}
RECURSIVE JoinAll(_, _)
JoinAll(classes, Xs) == IF Xs = {} THEN classes ELSE LET X == CHOOSE x \in Xs : TRUE IN JoinAll(Join(classes, X), Xs \ {X})

\* the tags of a message seen for the first time, with the files A
NewTags(U, T, cf, A) ==
  {LET au(p) == SeqRange(U.contents[T.f[p]].auto)
       t1 == IF cf.sync THEN FromFlags(U, au(f), {f}) ELSE au(f)
       t2 == t1 \cup (cf.tags \ (IF "S" \in Flags(U, f) THEN {"unread"} ELSE {})) \cup UNION {au(p) : p \in A}
   IN IF cf.sync /\ Cardinality(A) > 1 THEN FromFlags(U, t2, A) ELSE t2 : f \in A}
RECURSIVE DropTags(_, _, _, _, _)
DropTags(U, cf, tags, files, G) ==
  IF G = {} THEN {tags}
  ELSE UNION {DropTags(U, cf, IF cf.sync THEN FromFlags(U, tags, files \ {g}) ELSE tags, files \ {g}, G \ {g}) : g \in G}
OldTags(U, T, cf, tags, files, A, G) ==
  LET t1 == tags \cup UNION {SeqRange(U.contents[T.f[p]].auto) : p \in A}
      t2 == IF cf.sync /\ A # {} THEN FromFlags(U, t1, files \cup A) ELSE t1
  IN DropTags(U, cf, t2, files \cup A, G)

Seen(o, m) == IF \E i \in 1..Len(o.mail) : o.mail[i].id = m THEN <<o.mail[CHOOSE i \in 1..Len(o.mail) : o.mail[i].id = m]>> ELSE <<>>
Pick(S, x) == IF x \in S THEN x ELSE CHOOSE y \in S : TRUE
\* the index after a scan that adds the files in add and removes those in gone
ScanTo(U, db, T, cf, add, gone, o) ==
  LET C(p) == U.contents[T.f[p]]
      A(m) == {p \in add : C(p).mid = m}
      Fo(m) == IF m \in DOMAIN db.mail THEN db.mail[m].files ELSE {}
      known == DOMAIN db.mail \cup DOMAIN db.ghost
      tids == {TidOf(db, m) : m \in known}
      cl0 == {{m \in known : TidOf(db, m) = t} : t \in tids}
      cls == JoinAll(cl0, {{C(p).mid} \cup SeqRange(C(p).refs) : p \in add})
      F == [m \in DOMAIN db.mail \cup {C(p).mid : p \in add} |-> (Fo(m) \ gone) \cup A(m)]
      alive == {m \in DOMAIN F : F[m] # {}}
      live == {c \in cls : c \cap alive # {}}
      tidof == [c \in live |->
                  LET old == {TidOf(db, m) : m \in c \cap known}
                      ot == LET m == CHOOSE x \in c \cap alive : TRUE s == Seen(o, m) IN IF s = <<>> THEN "?" ELSE s[1].tid
                  \* (A message not known before may have begun a thread of its own and then been joined.)
                  IN IF old = {} \/ (c \ known # {} /\ ot \notin db.used) THEN (IF ot \in db.used THEN "?fresh" ELSE ot) ELSE Pick(old, ot)]
      Cl(m) == CHOOSE c \in live : m \in c
      See(m) == Seen(o, m)
      TagsOf(m) == LET S == IF m \in DOMAIN db.mail THEN OldTags(U, T, cf, db.mail[m].tags, Fo(m), A(m), Fo(m) \cap gone) ELSE NewTags(U, T, cf, A(m))
                   IN Pick(S, IF See(m) = <<>> THEN {} ELSE SeqRange(See(m)[1].tags))
      HdrOf(m) == LET S == {T.f[p] : p \in A(m)}
                      G == {c \in S : See(m) # <<>> /\ U.contents[c].date = See(m)[1].date /\ U.contents[c].subj = See(m)[1].subj /\ U.contents[c].from = See(m)[1].from}
                  IN CHOOSE c \in (IF G # {} THEN G ELSE S) : TRUE
      Words(m) == UNION {SeqRange(C(p).words) : p \in A(m)}
  IN [db EXCEPT
        !.mail = [m \in alive |->
                    IF m \in DOMAIN @ THEN [@[m] EXCEPT !.files = F[m], !.tags = TagsOf(m), !.tid = tidof[Cl(m)], !.words = @ \cup Words(m)]
                    ELSE [files |-> F[m], tags |-> TagsOf(m), props |-> {}, tid |-> tidof[Cl(m)], lm |-> 0, hdr |-> HdrOf(m), words |-> Words(m)]],
        !.ghost = [m \in UNION live \ alive |-> tidof[Cl(m)]],
        !.used = @ \cup Range(tidof),
        !.dirs = [d \in DOMAIN @ \cup UNION {Prefixes(DirOf(p)) : p \in add} |-> IF d \in DOMAIN @ THEN @[d] ELSE 0]]
Scan(U, db, T, cf, o) == LET V == Visible(U, T, cf) IN ScanTo(U, db, T, cf, V \ Indexed(db), Indexed(db) \ V, o)
\* What an interrupted scan may leave, given what was observed: some of the new files are there, some of
\* those that vanished are gone, and each message is as a scan of just these would have left it.
ObsFiles(o) == UNION {SeqRange(o.mail[i].files) : i \in 1..Len(o.mail)}
Partial(U, db, T, cf, o) == LET V == Visible(U, T, cf) IN ScanTo(U, db, T, cf, (V \ Indexed(db)) \cap ObsFiles(o), (Indexed(db) \ V) \ ObsFiles(o), o)
\* different threads have different ids
DistinctIn(U, db, T, add, d2) ==
  LET known == DOMAIN db.mail \cup DOMAIN db.ghost
      cls == JoinAll({{m \in known : TidOf(db, m) = t} : t \in {TidOf(db, m) : m \in known}},
                     {{U.contents[T.f[p]].mid} \cup SeqRange(U.contents[T.f[p]].refs) : p \in add})
  IN \A c1, c2 \in cls : \A m \in c1 \cap DOMAIN d2.mail, n \in c2 \cap DOMAIN d2.mail : d2.mail[m].tid = d2.mail[n].tid => c1 = c2
DistinctThreads(U, db, T, cf, d2) == DistinctIn(U, db, T, Visible(U, T, cf) \ Indexed(db), d2)

(***************************************************************************)
(* A scan while the tree changes from T to T2 (at one moment): what is     *)
(* there all the time is indexed, what is never there is not, and the rest *)
(* may go either way.  (The next scan has the plain meaning again: it      *)
(* notices whatever this one did not see.)                                 *)
(***************************************************************************)
Both(T, T2) == [f |-> [p \in DOMAIN T.f \cup DOMAIN T2.f |-> IF p \in DOMAIN T2.f THEN T2.f[p] ELSE T.f[p]], d |-> T.d \cup T2.d]
RaceAdd(db, o) == ObsFiles(o) \ Indexed(db)
RaceGone(db, o) == Indexed(db) \ ObsFiles(o)
RaceOK(U, db, T, T2, cf, o, finished) ==
  LET V1 == Visible(U, T, cf) V2 == Visible(U, T2, cf) IN
  /\ RaceAdd(db, o) \subseteq V1 \cup V2
  /\ RaceGone(db, o) \cap V1 \cap V2 = {}
  /\ finished => (V1 \cap V2) \ Indexed(db) \subseteq RaceAdd(db, o) /\ Indexed(db) \ (V1 \cup V2) \subseteq RaceGone(db, o)
RaceTo(U, db, T, T2, cf, o) == ScanTo(U, db, Both(T, T2), cf, RaceAdd(db, o), RaceGone(db, o), o)
=============================================================================
