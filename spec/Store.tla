------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The message store behind libnotmuch's public interface.                 *)
(*                                                                         *)
(* A database value DB is a record                                         *)
(*   mail  : message id -> [files, tags, props, tid, lm, hdr, words]       *)
(*           (exactly the messages that have at least one file; hdr names  *)
(*           the content whose date, sender and subject are shown, words   *)
(*           are the search terms recorded)                                *)
(*   ghost : message id -> thread id                                       *)
(*           (messages known only because somebody refers to them)         *)
(*   rev   : the revision counter                                          *)
(*   dirs  : directory -> recorded time stamp                              *)
(*   conf  : key -> value, stored configuration                            *)
(*   used  : every thread id handed out so far                             *)
(*                                                                         *)
(* A handle HS is the writer's view                                        *)
(*   mode  : "closed", "rw", "ro"                                          *)
(*   db    : what this handle sees                                         *)
(*   pub   : what everybody else sees, and what survives a crash           *)
(*   flush : TRUE if every completed operation is published at once        *)
(*   auto  : if not 0, everything is published after this many sections    *)
(*   cnt   : sections completed since then                                 *)
(*   base  : db when the outermost atomic section began                    *)
(*   depth, dirty : atomic nesting, and whether something was modified     *)
(*   slots : slot -> open message object                                   *)
(*                                                                         *)
(* Every operation is an operator from a handle (and arguments) to a set   *)
(* of results [h |-> handle, ret |-> status].                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* status codes of the public interface
OK == 0
READONLY == 2
FILEERR == 4
NOTEMAIL == 5
DUP == 6
TOOLONG == 8
UNBALFREEZE == 9
UNBALATOMIC == 10
ILLEGALARG == 15

Range(f) == {f[x] : x \in DOMAIN f}
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, S) == [y \in DOMAIN f \ S |-> f[y]]
Empty == [x \in {} |-> 0]
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

EmptyDB == [mail |-> Empty, ghost |-> Empty, rev |-> 0, dirs |-> Empty, conf |-> Empty, used |-> {}]

(***************************************************************************)
(* Paths are sequences of components; the last one is the file name.       *)
(***************************************************************************)
DirOf(p) == SubSeq(p, 1, Len(p) - 1)
Prefixes(d) == {SubSeq(d, 1, n) : n \in 0..Len(d)}
FolderOf(p) == LET d == DirOf(p) IN
               IF d # <<>> /\ d[Len(d)] \in {"cur", "new"} THEN SubSeq(d, 1, Len(d) - 1) ELSE d

Known(db, m) == m \in DOMAIN db.mail \cup DOMAIN db.ghost
TidOf(db, m) == IF m \in DOMAIN db.mail THEN db.mail[m].tid ELSE db.ghost[m]
FileOwners(db, p) == {m \in DOMAIN db.mail : p \in db.mail[m].files}
ThreadMail(db, t) == {m \in DOMAIN db.mail : db.mail[m].tid = t}

(***************************************************************************)
(* Adding a file.  c = [cid, mid, refs, words, auto]: what the file says.  *)
(* (auto: the tags that indexing itself sets, such as "attachment".)       *)
(* The new thread id                                                       *)
(* is that of the message if it is known, else one of those of the         *)
(* messages it refers to, else a fresh one.  All threads touched become    *)
(* one.  nr is the revision given to whatever is modified.                 *)
(***************************************************************************)
LinkedTids(db, c) == {TidOf(db, m) : m \in {x \in c.refs \ {c.mid} : Known(db, x)}}
\* (A message that is referred to but unknown is given a thread of its own first.)
AllowedTids(db, c, hint) ==
  IF Known(db, c.mid) THEN {TidOf(db, c.mid)}
  ELSE LinkedTids(db, c)
       \cup (IF hint \notin db.used /\ (LinkedTids(db, c) = {} \/ \E r \in c.refs \ {c.mid} : ~Known(db, r)) THEN {hint} ELSE {})

AddTo(db, p, c, t, nr) ==
  LET m == c.mid
      losers == (LinkedTids(db, c) \cup (IF Known(db, m) THEN {TidOf(db, m)} ELSE {})) \ {t}
      old == m \in DOMAIN db.mail
      fresh == [files |-> {p}, tags |-> c.auto, props |-> {}, tid |-> t, lm |-> nr, hdr |-> c.cid, words |-> c.words]
      mail1 == [x \in DOMAIN db.mail |->
                  IF x = m THEN [db.mail[x] EXCEPT !.files = @ \cup {p}, !.tid = t, !.lm = nr, !.tags = @ \cup c.auto, !.words = @ \cup c.words]
                  ELSE IF db.mail[x].tid \in losers THEN [db.mail[x] EXCEPT !.tid = t, !.lm = nr]
                  ELSE db.mail[x]]
      mail2 == IF old THEN mail1 ELSE Upd(mail1, m, fresh)
      newg == {x \in c.refs \ {m} : ~Known(db, x)}
      gdom == (DOMAIN db.ghost \cup newg) \ {m}
      ghost1 == [x \in gdom |-> IF x \in newg \/ db.ghost[x] \in losers THEN t ELSE db.ghost[x]]
      ndirs == Prefixes(DirOf(p)) \ DOMAIN db.dirs
  IN [db EXCEPT !.mail = mail2, !.ghost = ghost1, !.used = @ \cup {t},
                !.dirs = [d \in DOMAIN db.dirs \cup ndirs |-> IF d \in ndirs THEN 0 ELSE db.dirs[d]]]

(***************************************************************************)
(* Removing a file.                                                        *)
(***************************************************************************)
RemoveFrom(db, p, nr) ==
  LET m == CHOOSE x \in FileOwners(db, p) : TRUE
      rest == db.mail[m].files \ {p}
      t == db.mail[m].tid
      mates == ThreadMail(db, t) \ {m}
  IN IF rest # {} THEN [db |-> [db EXCEPT !.mail[m].files = rest, !.mail[m].lm = nr], ret |-> DUP, bump |-> {1}]
     ELSE IF mates # {} THEN
          [db |-> [db EXCEPT !.mail = Del(@, {m}), !.ghost = Upd(@, m, t)], ret |-> OK, bump |-> {0, 1}]
     ELSE [db |-> [db EXCEPT !.mail = Del(@, {m}), !.ghost = Del(@, {x \in DOMAIN @ : @[x] = t})], ret |-> OK, bump |-> {0, 1}]

(***************************************************************************)
(* Re-indexing message m: fs gives the present content of each path.       *)
(* The files that still exist are kept; the headers shown afterwards are   *)
(* those of one of them.  Threads named by the present files are joined.   *)
(***************************************************************************)
AutoTags == {"attachment", "signed", "encrypted"}
NotAuto(props) == {q \in props : ~(q[1] \in {"index.a", "index.b"})}
Kept(db, m, fs) == {p \in db.mail[m].files : p \in DOMAIN fs /\ fs[p].ok}
ReindexHdrs(db, m, fs) == {fs[p].cid : p \in Kept(db, m, fs)}
ReindexIn(db, m, fs, hdr, nr) ==
  LET keep == Kept(db, m, fs)
      t == db.mail[m].tid
      mates == ThreadMail(db, t) \ {m}
  IN IF keep # {} THEN
       [db EXCEPT !.mail[m].files = keep, !.mail[m].hdr = hdr, !.mail[m].lm = nr,
                  !.mail[m].tags = (@ \ AutoTags) \cup UNION {fs[p].auto : p \in keep},
                  !.mail[m].words = UNION {fs[p].words : p \in keep},
                  !.mail[m].props = NotAuto(@)]
     ELSE IF mates # {} THEN [db EXCEPT !.mail = Del(@, {m}), !.ghost = Upd(@, m, t)]
     ELSE [db EXCEPT !.mail = Del(@, {m}), !.ghost = Del(@, {x \in DOMAIN @ : @[x] = t})]

(***************************************************************************)
(* The handle.                                                             *)
(***************************************************************************)
Closed(pub, flush) == [mode |-> "closed", db |-> EmptyDB, pub |-> pub, flush |-> flush,
                       base |-> EmptyDB, depth |-> 0, dirty |-> FALSE, slots |-> Empty, auto |-> 0, cnt |-> 0]
\* what is left when the process that holds the handle is gone
Crashed(h) == [Closed(h.pub, h.flush) EXCEPT !.auto = h.auto]
\* An outermost section is complete: with automatic commits every auto-th one publishes everything.
Counted(h) == LET full == h.auto > 0 /\ h.cnt + 1 >= h.auto
              IN [h EXCEPT !.cnt = IF full THEN 0 ELSE @ + 1, !.pub = IF full THEN h.db ELSE @]

NextRev(h) == h.db.rev + 1
\* a completed modification: outside a section the counter moves at once, inside it is noted
ModifiedBy(h, db, k) ==
  IF h.depth > 0 THEN [h EXCEPT !.db = [db EXCEPT !.rev = h.db.rev], !.dirty = TRUE]
  ELSE LET d == [db EXCEPT !.rev = h.db.rev + k]
       IN [h EXCEPT !.db = d, !.pub = IF h.flush THEN d ELSE @]
Modified(h, db) == ModifiedBy(h, db, 1)
\* the same for changes that do not concern a message
Changed(h, db) ==
  IF h.depth > 0 THEN [h EXCEPT !.db = db] ELSE [h EXCEPT !.db = db, !.pub = IF h.flush THEN db ELSE @]
One(h, r) == {[h |-> h, ret |-> r]}
Refused(h) == One(h, READONLY)

\* Opening: the counter is recovered from the newest mark left in the database, which is the
\* committed revision unless no message is left (named deviation, known finding F-P08-1).
RevOnOpen(db) == IF DOMAIN db.mail = {} /\ DOMAIN db.ghost = {} THEN {0, db.rev} ELSE {db.rev}
Open(h, mode) ==
  {[h |-> [h EXCEPT !.mode = mode, !.db = [h.pub EXCEPT !.rev = r], !.base = EmptyDB, !.depth = 0, !.dirty = FALSE, !.slots = Empty, !.cnt = 0],
    ret |-> OK] : r \in RevOnOpen(h.pub)}

\* Closing publishes everything, unless a section is open: then the section's changes are dropped.
\* What was done before the section and not yet published may be dropped with it
\* (documented: "changes since the last commit are discarded").
CloseGood(h) == [h EXCEPT !.mode = "closed", !.pub = IF h.mode # "rw" THEN @ ELSE IF h.depth = 0 THEN h.db ELSE h.base,
                          !.depth = 0, !.dirty = FALSE, !.slots = Empty]
CloseDrops(h) == [h EXCEPT !.mode = "closed", !.depth = 0, !.dirty = FALSE, !.slots = Empty]
Close(h) == One(CloseGood(h), OK) \cup (IF h.mode = "rw" /\ h.depth > 0 THEN One(CloseDrops(h), OK) ELSE {})

Begin(h) == One(IF h.mode = "rw" /\ h.depth = 0 THEN [h EXCEPT !.depth = 1, !.base = h.db] ELSE [h EXCEPT !.depth = @ + 1], OK)
End(h) ==
  IF h.depth = 0 THEN One(h, UNBALATOMIC)
  ELSE IF h.depth > 1 \/ h.mode # "rw" THEN One([h EXCEPT !.depth = @ - 1], OK)
  ELSE LET d == [h.db EXCEPT !.rev = IF h.dirty THEN @ + 1 ELSE @]
       IN One(Counted([h EXCEPT !.depth = 0, !.dirty = FALSE, !.db = d, !.pub = IF h.flush THEN d ELSE @]), OK)

\* fs: path -> content that is on disk now
Add(h, fs, p, hint) ==
  IF h.mode # "rw" THEN Refused(h)
  ELSE IF p \notin DOMAIN fs THEN One(h, FILEERR)
  \* (adding a file is a section of its own)
  ELSE IF ~fs[p].ok THEN One(IF h.depth = 0 THEN Counted(h) ELSE h, NOTEMAIL)
  ELSE {[h |-> LET g == Modified(h, AddTo(h.db, p, fs[p], t, NextRev(h))) IN IF h.depth = 0 THEN Counted(g) ELSE g,
         ret |-> IF fs[p].mid \in DOMAIN h.db.mail THEN DUP ELSE OK] : t \in AllowedTids(h.db, fs[p], hint)}

Remove(h, p) ==
  IF FileOwners(h.db, p) = {} THEN One(h, OK) \cup (IF h.mode # "rw" THEN Refused(h) ELSE {})
  ELSE IF h.mode # "rw" THEN Refused(h)
  ELSE LET r == RemoveFrom(h.db, p, NextRev(h))
       IN {[h |-> IF b = 1 THEN Modified(h, r.db) ELSE Changed(h, r.db), ret |-> r.ret] : b \in r.bump}

\* (Outside a section the library writes the document twice: the mark advances by one or two.)
Reindex(h, fs, m) ==
  IF h.mode # "rw" THEN Refused(h)
  ELSE IF Kept(h.db, m, fs) = {} THEN
         LET d == ReindexIn(h.db, m, fs, "", 0)
         IN {[h |-> Changed(h, d), ret |-> OK]} \cup {[h |-> ModifiedBy(h, d, k), ret |-> OK] : k \in {1, 2}}
       ELSE {[h |-> ModifiedBy(h, ReindexIn(h.db, m, fs, x, h.db.rev + k), k), ret |-> OK] : x \in ReindexHdrs(h.db, m, fs), k \in IF h.depth > 0 THEN {1} ELSE {1, 2}}

\* message objects
Fetch(h, s, m) ==
  IF m \in DOMAIN h.db.mail
  THEN One([h EXCEPT !.slots = Upd(@, s, [mid |-> m, frozen |-> 0, tags |-> h.db.mail[m].tags, props |-> h.db.mail[m].props, mod |-> FALSE])], OK)
  ELSE One([h EXCEPT !.slots = Del(@, {s})], OK)
Drop(h, s) == One([h EXCEPT !.slots = Del(@, {s})], OK)

\* write the object's tags and properties back
Sync(h, s, mod) ==
  LET o == h.slots[s] IN
  IF o.frozen > 0 \/ ~mod THEN [h EXCEPT !.slots[s].mod = mod]
  ELSE LET h1 == Modified(h, [h.db EXCEPT !.mail[o.mid].tags = o.tags, !.mail[o.mid].props = o.props, !.mail[o.mid].lm = NextRev(h)])
       IN [h1 EXCEPT !.slots[s].mod = FALSE]
\* An update of the object.  One that changes something must count as a modification; adding what is
\* there already may count as one (add = TRUE), removing what is not there does not.
Update(h, s, tags, props, add) ==
  LET o == h.slots[s]
      real == tags # o.tags \/ props # o.props
      h1 == [h EXCEPT !.slots[s].tags = tags, !.slots[s].props = props]
  IN IF h.mode # "rw" THEN Refused(h)
     ELSE {[h |-> Sync(h1, s, md), ret |-> OK] : md \in IF real \/ o.mod THEN {TRUE} ELSE IF add THEN {TRUE, FALSE} ELSE {FALSE}}

Tag(h, s, t) == Update(h, s, h.slots[s].tags \cup {t}, h.slots[s].props, TRUE)
Untag(h, s, t) == Update(h, s, h.slots[s].tags \ {t}, h.slots[s].props, FALSE)
ClearTags(h, s) == Update(h, s, {}, h.slots[s].props, FALSE)
Prop(h, s, k, v) == Update(h, s, h.slots[s].tags, h.slots[s].props \cup {<<k, v>>}, TRUE)
Unprop(h, s, k, v) == Update(h, s, h.slots[s].tags, h.slots[s].props \ {<<k, v>>}, FALSE)
ClearProps(h, s, K) == Update(h, s, h.slots[s].tags, {q \in h.slots[s].props : q[1] \notin K}, FALSE)

Freeze(h, s) == IF h.mode # "rw" THEN Refused(h) ELSE One([h EXCEPT !.slots[s].frozen = @ + 1], OK)
Thaw(h, s) ==
  IF h.mode # "rw" THEN Refused(h)
  ELSE IF h.slots[s].frozen = 0 THEN One(h, UNBALFREEZE)
  ELSE LET h1 == [h EXCEPT !.slots[s].frozen = @ - 1]
       IN One(Sync(h1, s, h.slots[s].mod), OK)

SetDir(h, d, t) ==
  IF d \notin DOMAIN h.db.dirs THEN One(h, OK)
  ELSE IF h.mode # "rw" THEN Refused(h)
  ELSE One(Changed(h, [h.db EXCEPT !.dirs[d] = t]), OK)
DelDir(h, d) ==
  IF d \notin DOMAIN h.db.dirs THEN One(h, OK)
  ELSE IF h.mode # "rw" THEN Refused(h)
  ELSE One(Changed(h, [h.db EXCEPT !.dirs = Del(@, {d})]), OK)
SetConf(h, k, v) ==
  IF h.mode # "rw" THEN Refused(h)
  ELSE One(Changed(h, [h.db EXCEPT !.conf = IF v = "" THEN Del(@, {k}) ELSE Upd(@, k, v)]), OK)

\* A crash leaves what was published.
CrashOutcomes(h) == {Crashed(h)}

(***************************************************************************)
(* Invariants of a database value.                                         *)
(***************************************************************************)
DBOk(db) ==
  /\ DOMAIN db.mail \cap DOMAIN db.ghost = {}
  /\ \A m \in DOMAIN db.mail : db.mail[m].files # {} /\ db.mail[m].tid \in db.used /\ db.mail[m].lm <= db.rev + 1
  \* a ghost lives only in a thread that has mail
  /\ \A g \in DOMAIN db.ghost : ThreadMail(db, db.ghost[g]) # {}
  \* a file belongs to one message
  /\ \A m, n \in DOMAIN db.mail : m # n => db.mail[m].files \cap db.mail[n].files = {}
=============================================================================
