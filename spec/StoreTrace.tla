----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Validates traces recorded from libnotmuch against Store.tla.            *)
(*                                                                         *)
(* The trace file holds many traces; each begins with a line ev="reset"    *)
(* that names the universe (contents, probes, which observations to        *)
(* compare).  S is the set of handles the specification allows after the   *)
(* lines read so far; when a line leaves none, the trace is rejected and   *)
(* the validator goes on with the next one.                                *)
(***************************************************************************)
EXTENDS Insert, Compact, Hooks, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.NMV_TRACE)
N == Len(Trace)
VARIABLES l, S, fs, base, tree
vars == <<l, S, fs, base, tree>>

U == Trace[base]
Has(r, f) == f \in DOMAIN r
Cmp == SeqRange(U.cmp)

FS == [p \in DOMAIN fs |-> Content(U, fs[p])]
\* a tree as the trace gives it
TreeOf(t) == [f |-> [p \in {t.f[i][1] : i \in 1..Len(t.f)} |-> LET i == CHOOSE j \in 1..Len(t.f) : t.f[j][1] = p IN t.f[i][2]], d |-> SeqRange(t.d)]

NoDup(s) == Cardinality(SeqRange(s)) = Len(s)
SameSet(s, X) == NoDup(s) /\ SeqRange(s) = X

FieldOK(f, db, o) ==
  CASE f = "ids"   -> SameSet([i \in 1..Len(o.mail) |-> o.mail[i].id], DOMAIN db.mail)
    [] f = "files" -> \A i \in 1..Len(o.mail) : LET x == o.mail[i] IN
                        x.id \in DOMAIN db.mail => SameSet(x.files, db.mail[x.id].files) /\ x.nf = Cardinality(db.mail[x.id].files)
    [] f = "tags"  -> \A i \in 1..Len(o.mail) : LET x == o.mail[i] IN x.id \in DOMAIN db.mail => SameSet(x.tags, db.mail[x.id].tags)
    [] f = "props" -> \A i \in 1..Len(o.mail) : LET x == o.mail[i] IN x.id \in DOMAIN db.mail => SameSet(x.props, db.mail[x.id].props)
    [] f = "tid"   -> \A i \in 1..Len(o.mail) : LET x == o.mail[i] IN x.id \in DOMAIN db.mail => x.tid = db.mail[x.id].tid
    [] f = "hdr"   -> \A i \in 1..Len(o.mail) : LET x == o.mail[i] IN x.id \in DOMAIN db.mail =>
                        LET c == U.contents[db.mail[x.id].hdr] IN x.date = c.date /\ x.subj = c.subj /\ x.from = c.from
    [] f = "lm"    -> Has(o, "lm") => SameSet(o.lm, {<<m, db.mail[m].lm>> : m \in DOMAIN db.mail})
    [] f = "rev"   -> o.rev = db.rev
    [] f = "uuid"  -> o.uuid = U.uuid
    [] f = "alltags" -> Has(o, "alltags") => SameSet(o.alltags, UNION {db.mail[m].tags : m \in DOMAIN db.mail})
    [] f = "conf"  -> Has(o, "conf") => SameSet(o.conf, {<<k, db.conf[k]>> : k \in DOMAIN db.conf})
    [] f = "find"  -> \A i \in 1..Len(o.find) : o.find[i] = IF U.mids[i] \in DOMAIN db.mail THEN U.mids[i] ELSE ""
    [] f = "ff"    -> \A i \in 1..Len(o.ff) :
                        LET W == FileOwners(db, U.paths[i]) IN IF W = {} THEN o.ff[i] = "" ELSE o.ff[i] \in W
    [] f = "q"     -> \A i \in 1..Len(o.q) : SameSet(o.q[i], Matching(U, db, U.probes[i]))
    [] f = "dirs"  -> \A i \in 1..Len(o.dirs) :
                        LET d == U.dirs[i] x == o.dirs[i]
                            files == {p[Len(p)] : p \in {y \in UNION {db.mail[m].files : m \in DOMAIN db.mail} : DirOf(y) = d}}
                            subs == {e[Len(e)] : e \in {y \in DOMAIN db.dirs : y # <<>> /\ SubSeq(y, 1, Len(y) - 1) = d}}
                        IN IF d \in DOMAIN db.dirs THEN x.there /\ x.mtime = db.dirs[d] /\ SameSet(x.files, files) /\ SameSet(x.dirs, subs)
                           ELSE ~x.there
    [] f = "dirfiles" -> \A i \in 1..Len(o.dirs) :
                        LET d == U.dirs[i]
                            files == {p[Len(p)] : p \in {y \in UNION {db.mail[m].files : m \in DOMAIN db.mail} : DirOf(y) = d}}
                        IN IF o.dirs[i].there THEN SameSet(o.dirs[i].files, files) ELSE files = {}
\* (Inside a section Xapian answers range queries from the values it has flushed when it flushes
\* after every change, a mode used for testing only.)
Bad(h, db, o) == {f \in Cmp \ (IF h.flush /\ h.depth > 0 THEN {"lm"} ELSE {}) : ~FieldOK(f, db, o)}

\* an observation of a single message object
SlotOK(h, e) == LET o == h.slots[e.s] IN
  /\ ("tags" \in Cmp => SameSet(e.v.tags, o.tags))
  /\ ("props" \in Cmp => SameSet(e.v.props, o.props))
KeyHit(k, key, exact, pre) == IF exact THEN k = key ELSE k \in pre
GetPropsOK(h, e) ==
  LET o == h.slots[e.s]
      hit == {q \in o.props : IF e.exact THEN q[1] = e.key ELSE q[1] \in SeqRange(e.pre)}
      ex == {q \in o.props : q[1] = e.key}
  IN /\ SameSet(e.props, hit)
     /\ e.count = Cardinality(ex)
     /\ IF ex = {} THEN e.first = "" ELSE <<e.key, e.first>> \in ex

\* a search through the library: ids, flags and counts
SearchOK(db, e) ==
  LET X == SeqRange(e.excl)
      ids == [i \in 1..Len(e.ids) |-> e.ids[i][1]]
  IN /\ e.st = 0
     /\ SameSet(ids, Found(U, db, e.q, X, e.mode))
     /\ {e.ids[i][1] : i \in {j \in 1..Len(e.ids) : e.ids[j][2]}} = Flagged(U, db, e.q, X, e.mode)
     /\ Ordered(U, db, ids, e.sort)
     /\ e.nmsg = Len(ids)
     /\ e.nthr = Cardinality({db.mail[m].tid : m \in SeqRange(ids)})

\* One query on the command line, in all its forms: e.full is the list of matching ids of an unlimited search.
CliOK(db, e) ==
  LET X == SeqRange(e.excl)
      F == Found(U, db, e.q, X, e.mode)
      thr == Uniq([i \in 1..Len(e.full) |-> db.mail[e.full[i]].tid])
      RowOK(x) ==
        LET s == IF x.out = "messages" THEN e.full ELSE thr IN
        CASE x.out \in {"messages", "threads"} -> x.got = Page(s, x.off, x.lim)
          [] x.out = "dup" -> x.got = SelectSeq(e.full, LAMBDA m : Cardinality(db.mail[m].files) >= x.n)
          [] x.out = "files" ->
               LET pg == Page(e.full, x.off, x.lim) IN SameSet(x.got, UNION {db.mail[m].files : m \in SeqRange(pg)})
          [] x.out = "dupfiles" ->   \* exactly one file for every message that has enough
               /\ NoDup(x.got)
               /\ \A m \in F : Cardinality({i \in 1..Len(x.got) : x.got[i] \in db.mail[m].files}) = IF Cardinality(db.mail[m].files) >= x.n THEN 1 ELSE 0
               /\ SeqRange(x.got) \subseteq UNION {db.mail[m].files : m \in F}
          [] x.out = "tags" -> SameSet(x.got, UNION {db.mail[m].tags : m \in F})
          [] x.out = "summary" ->
               /\ [i \in 1..Len(x.got) |-> x.got[i].tid] = Page(s, x.off, x.lim)
               /\ \A i \in 1..Len(x.got) :
                    LET y == x.got[i] T == Listed(U, db, y.tid, e.q, X, e.mode) M == {m \in F : db.mail[m].tid = y.tid} IN
                    /\ y.total = Cardinality(T) /\ y.matched = Cardinality(M \ Flagged(U, db, e.q, X, e.mode))
                    /\ SameSet(y.tags, UNION {db.mail[m].tags : m \in T})
          [] x.out = "count" -> x.got = Cardinality(F)
          [] x.out = "countthreads" -> x.got = Cardinality({db.mail[m].tid : m \in F})
          [] x.out = "countfiles" -> x.got = SumSet(F, [m \in F |-> Cardinality(db.mail[m].files)])
  IN /\ e.st = 0
     /\ SameSet(e.full, F)
     /\ Ordered(U, db, e.full, e.sort)
     /\ \A i \in 1..Len(e.rows) : RowOK(e.rows[i]) \/ ~PrintT(<<"ROW", l, i, e.rows[i]>>)

\* Threads as the library shows them.  y.nodes lists [id, par, match, excl] parents first.
NodesOK(db, T, nodes) ==
  LET ids == [i \in 1..Len(nodes) |-> nodes[i].id]
      par == [m \in T |-> nodes[CHOOSE i \in 1..Len(nodes) : nodes[i].id = m].par]
  IN /\ SameSet(ids, T)
     /\ \A i \in 1..Len(nodes) : nodes[i].par = "" \/ \E j \in 1..(i - 1) : ids[j] = nodes[i].par
     /\ TreeOK(U, db, T, par)
     /\ \A i \in 1..Len(nodes) : \A j \in 1..(i - 1) : nodes[i].par = nodes[j].par => DateOf(U, db, ids[j]) <= DateOf(U, db, ids[i])
ThreadOK(db, e, y) ==
  LET X == SeqRange(e.excl)
      T == Listed(U, db, y.tid, e.q, X, e.mode)
      M == {m \in Found(U, db, e.q, X, e.mode) : db.mail[m].tid = y.tid}
      FL == {m \in T : e.mode # "false" /\ Hidden(U, db, m, e.q, X)}
      Subj(m) == U.contents[db.mail[m].hdr].shown
      R == IF e.sort = "old" THEN Oldest(U, db, M) ELSE Newest(U, db, M)
  IN /\ NodesOK(db, T, y.nodes)
     /\ {y.nodes[i].id : i \in {j \in 1..Len(y.nodes) : y.nodes[j].match}} = M
     /\ {y.nodes[i].id : i \in {j \in 1..Len(y.nodes) : y.nodes[j].excl}} = FL
     /\ SameSet(y.all, T) /\ Ordered(U, db, y.all, "old")
     /\ y.total = Cardinality(T)
     /\ y.matched = Cardinality(M \ FL)
     /\ y.files = SumSet(T, [m \in T |-> Cardinality(db.mail[m].files)])
     /\ SameSet(y.tags, UNION {db.mail[m].tags : m \in T})
     /\ AuthorsOK(U, db, y.auth, M)
     /\ AuthorsOK(U, db, y.other, {m \in T : Author(U, db, m) \notin SeqRange(y.auth)})
     /\ M \cap FL = {} =>
          /\ \A m \in Oldest(U, db, M) : y.oldest = DateOf(U, db, m)
          /\ \A m \in Newest(U, db, M) : y.newest = DateOf(U, db, m)
          /\ (\A m \in R : Subj(m) # "") => y.subj \in {Subj(m) : m \in R}
ThreadsOK(db, e) ==
  /\ e.st = 0
  /\ SameSet([i \in 1..Len(e.threads) |-> e.threads[i].tid], {db.mail[m].tid : m \in Found(U, db, e.q, SeqRange(e.excl), e.mode)})
  /\ \A i \in 1..Len(e.threads) : ThreadOK(db, e, e.threads[i]) \/ ~PrintT(<<"THREAD", l, i, e.threads[i]>>)
\* "notmuch show": whole threads, or only the matching messages
ShowOK(db, e) ==
  LET X == SeqRange(e.excl)
      F == Found(U, db, e.q, X, e.mode)
      tids == {db.mail[m].tid : m \in F}
      Mine(t) == {m \in F : db.mail[m].tid = t}
      Key(t) == IF e.sort = "old" THEN DateOf(U, db, CHOOSE m \in Oldest(U, db, Mine(t)) : TRUE) ELSE -DateOf(U, db, CHOOSE m \in Newest(U, db, Mine(t)) : TRUE)
      Tid(y) == db.mail[y[1].id].tid
      IdsOf(y) == [j \in 1..Len(y) |-> y[j].id]
      Says(y) == \A j \in 1..Len(y) : y[j].match = (y[j].id \in F) /\ y[j].excl = Hidden(U, db, y[j].id, e.q, X)
      \* the nearest message above that is shown, too
      Up(y, m) == LET par == [j \in SeqRange(IdsOf(y)) |-> y[CHOOSE i \in 1..Len(y) : y[i].id = j].par]
                      RECURSIVE Go(_)
                      Go(x) == IF x = "" \/ x \in F THEN x ELSE Go(par[x])
                  IN Go(par[m])
  IN
  /\ Len(e.whole) = Cardinality(tids) /\ Len(e.part) = Len(e.whole)
  /\ \A i \in 1..Len(e.whole) : LET y == e.whole[i] z == e.part[i] IN
       /\ y # <<>> /\ y[1].id \in DOMAIN db.mail
       /\ NodesOK(db, ThreadMail(db, Tid(y)), y) /\ Says(y)
       /\ SameSet(IdsOf(z), Mine(Tid(y))) /\ Says(z)
       /\ \A j \in 1..Len(z) : z[j].par = Up(y, z[j].id)
  /\ {Tid(e.whole[i]) : i \in 1..Len(e.whole)} = tids
  /\ \A i \in 1..(Len(e.whole) - 1) : Key(Tid(e.whole[i])) <= Key(Tid(e.whole[i + 1]))
  /\ e.page = Page(e.part, e.off, e.lim)
  /\ IF e.mode = "true" \/ TRUE THEN SameSet([i \in 1..Len(e.flat) |-> e.flat[i].id], F) /\ Ordered(U, db, IdsOf(e.flat), e.sort) ELSE TRUE

\* commands: the new state and tree, if the trace shows what they must be
After(h, r, e) == IF r.t = TreeOf(e.tree) THEN One([h EXCEPT !.pub = r.db, !.db = r.db], e.want)
                  ELSE LET x == TreeOf(e.tree) IN
                       IF PrintT(<<"TREE", "wanted", {<<p, r.t.f[p]>> : p \in DOMAIN r.t.f} \ {<<p, x.f[p]>> : p \in DOMAIN x.f}, "found", {<<p, x.f[p]>> : p \in DOMAIN x.f} \ {<<p, r.t.f[p]>> : p \in DOMAIN r.t.f}>>)
                       THEN {[h |-> h, ret |-> -1]} ELSE {}
TagCmd(h, e) ==
  LET Ls == [i \in 1..Len(e.lines) |-> [ops |-> e.lines[i].ops, all |-> e.all, q |-> e.lines[i].q]]
        x == TreeOf(e.tree)
      R == TagLines(U, {[db |-> h.pub, t |-> tree]}, Ls, e.sync)
      G == {r \in R : r.t = x}
  IN UNION {After(h, r, e) : r \in IF G # {} THEN G ELSE R}
ScanConf(e) == [tags |-> SeqRange(e.tags), sync |-> e.sync, verb |-> SeqRange(e.verb), rx |-> SeqRange(e.rx)]
NewCmd(h, e) ==
  LET cf == ScanConf(e) d == Scan(U, h.pub, tree, cf, e.o)
  IN IF DistinctThreads(U, h.pub, tree, cf, d) THEN After(h, [db |-> d, t |-> tree], e) ELSE {[h |-> h, ret |-> -2]}

\* The tree changes meanwhile.  The scan may fail (1), or say that something vanished (75).
RaceCmd(h, e) ==
  LET cf == ScanConf(e) T2 == TreeOf(e.tree) ok == RaceOK(U, h.pub, tree, T2, cf, e.o, e.st # 1) d == RaceTo(U, h.pub, tree, T2, cf, e.o)
  IN IF ok /\ e.st \in {0, 1, 75} /\ DistinctIn(U, h.pub, Both(tree, T2), RaceAdd(h.pub, e.o), d) THEN After(h, [db |-> d, t |-> T2], e)
     ELSE IF PrintT(<<"RACE", e.st, "new", RaceAdd(h.pub, e.o), "gone", RaceGone(h.pub, e.o)>>) THEN {} ELSE {}

\* A known deviation is allowed unless the trace asks for the strict specification.
Strict == Has(U, "strict") /\ U.strict

\* Scans that were stopped, one after the other, and the one that completed their work.  (Nothing of this lasts: the
\* harness goes back to the database it had before.)
\* (Stopped while it was being created for the first time, a database may not be there yet.)
CutBad(h, d, o) == IF Has(o, "failed") THEN (IF h.pub = EmptyDB THEN {} ELSE {"open"}) ELSE Bad(h, d, o)
RECURSIVE Cuts(_, _, _, _, _)
Cuts(h, db, os, cf, i) ==
  IF os = <<>> THEN {}
  ELSE LET o == Head(os) d == IF Has(o, "failed") THEN db ELSE Partial(U, db, tree, cf, o) b == CutBad(h, d, o)
       IN IF b # {} THEN {<<i, b>>} ELSE Cuts(h, d, Tail(os), cf, i + 1)
\* Known deviation: where Xapian was stopped while it created its files for the first time no later command gets on.
Halfborn(h, e) == ~Strict /\ e.halfborn /\ h.pub = EmptyDB /\ Has(e.fin, "failed") /\ \A i \in 1..Len(e.cuts) : Has(e.cuts[i], "failed")
CutCmd(h, e) ==
  LET cf == ScanConf(e) d == Scan(U, h.pub, tree, cf, e.fin)
      bad == Cuts(h, h.pub, e.cuts, cf, 1) \cup (LET b == CutBad(h, d, e.fin) IN IF b # {} THEN {<<0, b>>} ELSE {})
             \cup (IF TreeOf(e.tree) # tree THEN {<<-1, {"tree"}>>} ELSE {}) \cup (IF e.want # 0 THEN {<<-2, {"status"}>>} ELSE {})
             \cup (IF DistinctThreads(U, h.pub, tree, cf, d) THEN {} ELSE {<<-3, {"tid"}>>})
  IN IF bad = {} \/ Halfborn(h, e) \/ ~PrintT(<<"CUT", l, bad>>) THEN One(h, OK) ELSE {}

RestoreCmd(h, e) ==
  LET x == TreeOf(e.tree)
      R == RestoreLines(U, {[db |-> h.pub, t |-> tree]}, e.lines, SeqRange(e.inc), e.acc, e.sync)
      G == {r \in R : r.t = x}
  IN UNION {After(h, r, e) : r \in IF G # {} THEN G ELSE R}
\* A dump into a file that fails leaves the file as it was, and nothing else; one that is killed may leave something beside it.
DumpCmd(h, e) ==
  IF e.st = 0 THEN (IF e.file # "old" /\ DumpOK(U, h.pub, e.q, SeqRange(e.inc), e.lines) THEN One(h, OK) ELSE {})
  ELSE IF e.how = "fail" THEN (IF e.file = "old" /\ e.left = 0 THEN One(h, e.st) ELSE {})
  ELSE IF e.how = "kill" THEN (IF e.file = "old" \/ (e.file = "new" /\ DumpOK(U, h.pub, e.q, SeqRange(e.inc), e.lines)) THEN One(h, e.st) ELSE {})
  ELSE {}

\* Delivery: an operation log tells how the file got there.
Faulty(e) == \E i \in 1..Len(e.fsops) : ~e.fsops[i].ok
InsertDone(h, e, X) ==
  LET s == FsRun(Start, e.fsops, e.size, e.folder) p == Visible1(e.fsops, e.folder)
      T1 == [tree EXCEPT !.d = @ \cup IF e.create THEN MaildirDirs(e.folder) ELSE {}]
      bad == (IF Contained(e.folder) THEN {} ELSE {"outside"}) \cup (IF e.refuse THEN {"refused"} ELSE {}) \cup (IF CanDeliver(T1, e.folder) /\ (e.create => CanCreate(tree, e.folder)) THEN {} ELSE {"nowhere"})
             \cup (IF DurableOK(s) THEN {} ELSE {<<"durable", s>>}) \cup (IF p \in DOMAIN tree.f THEN {"replaced"} ELSE {}) \cup (IF e.left THEN {"elsewhere"} ELSE {})
             \cup (IF e.empty THEN {"empty"} ELSE {}) \cup (IF e.mode = (IF e.world THEN 420 ELSE 384) THEN {} ELSE {"mode"})
      full == IF bad = {} /\ U.contents[e.cid].ok THEN Inserted(U, h.pub, tree, e, p, e.o, Faulty(e)) ELSE {}
      fileonly == IF bad = {} /\ e.keep /\ (~U.contents[e.cid].ok \/ Faulty(e) \/ e.how = "db") THEN {[db |-> h.pub, t |-> WithFile(tree, e, p, e.cid)]} ELSE {}
      \* (what could not be saved may have renamed the file before)
      moved == IF e.keep /\ (e.how = "db" \/ Faulty(e)) THEN {[db |-> h.pub, t |-> r.t] : r \in full} ELSE {}
      R == full \cup fileonly \cup moved
      G == {r \in R : r.t = X /\ Bad(h, r.db, e.o) = {}}
  IN IF bad # {} THEN (IF PrintT(<<"INSERT", l, bad>>) THEN {} ELSE {}) ELSE UNION {After(h, r, e) : r \in IF G # {} THEN G ELSE R}
InsertFailed(h, e, X) ==
  LET may == ~Contained(e.folder) \/ e.refuse \/ e.empty \/ (~e.keep /\ ~U.contents[e.cid].ok) \/ Faulty(e) \/ e.how \in {"int", "read", "db"}
             \/ (IF e.create THEN ~CanCreate(tree, e.folder) ELSE ~CanDeliver(tree, e.folder))
      lost == {e.fsops[i].p : i \in {j \in 1..Len(e.fsops) : e.fsops[j].op = "unlink" /\ ~e.fsops[j].ok}}
      \* (what could not be removed is told; perhaps it has been renamed before)
      left == lost \cup {e.fsops[i].q : i \in {j \in 1..Len(e.fsops) : e.fsops[j].op = "rename" /\ e.fsops[j].ok /\ e.fsops[j].p \in lost}}
      bad == (IF may THEN {} ELSE {"no reason"}) \cup (IF [p \in DOMAIN X.f \ left |-> X.f[p]] = tree.f THEN {} ELSE {<<"files", DOMAIN X.f \ DOMAIN tree.f, DOMAIN tree.f \ DOMAIN X.f>>})
             \cup (IF tree.d \subseteq X.d /\ (X.d \ tree.d) \subseteq (IF e.create /\ Contained(e.folder) THEN MaildirDirs(e.folder) ELSE {}) THEN {} ELSE {"dirs"}) \cup (IF e.left THEN {"elsewhere"} ELSE {})
  IN IF bad = {} \/ ~PrintT(<<"INSERT", l, bad>>) THEN One(h, e.st) ELSE {}
\* Killed: nothing there before is lost, a file with a final name is complete, and the database is the old or the new one.
InsertKilled(h, e, X) ==
  LET p == Visible1(e.fsops, e.folder)
      s == FsRun(Start, e.fsops, e.size, e.folder)
      new == DOMAIN X.f \ DOMAIN tree.f
      bad == (IF \A q \in DOMAIN tree.f : q \in DOMAIN X.f /\ X.f[q] = tree.f[q] THEN {} ELSE {"lost"})
             \cup (IF \A q \in new : DirOf(q) = Append(e.folder, "tmp") \/ X.f[q] = e.cid THEN {} ELSE {"incomplete"})
             \cup (IF s.bad = {} THEN {} ELSE {s.bad}) \cup (IF Cardinality(new) > 1 THEN {"several"} ELSE {}) \cup (IF e.left THEN {"elsewhere"} ELSE {})
      full == IF p # <<>> /\ U.contents[e.cid].ok THEN {r.db : r \in {y \in Inserted(U, h.pub, tree, e, p, e.o, Faulty(e)) : y.t.f = X.f}} ELSE {}
      G == {d \in {h.pub} \cup full : Bad(h, d, e.o) = {}}
  IN IF bad # {} THEN (IF PrintT(<<"INSERT", l, bad>>) THEN {} ELSE {}) ELSE UNION {One([h EXCEPT !.pub = d, !.db = d], e.st) : d \in IF G # {} THEN G ELSE {h.pub} \cup full}
InsertCmd(h, e) == LET X == TreeOf(e.tree) IN IF e.st = 0 THEN InsertDone(h, e, X) ELSE IF e.st < 0 THEN InsertKilled(h, e, X) ELSE InsertFailed(h, e, X)

\* Compactions one after the other: what was at each place before and after.
CopyAt(h, x) == IF x.kind # "db" \/ Has(x.o, "failed") THEN x.hash
                ELSE IF \E r \in RevOnOpen(h.pub) : Bad(Closed(h.pub, FALSE), [h.pub EXCEPT !.rev = r], x.o) = {} THEN "db" ELSE x.hash
Copies(h, s) == [p \in {s[i].at : i \in 1..Len(s)} |-> CopyAt(h, s[CHOOSE i \in 1..Len(s) : s[i].at = p])]
CompactCmd(h, e) ==
  LET bad == {i \in 1..Len(e.steps) : LET x == e.steps[i] IN ~CompactOK(Copies(h, x.before), Copies(h, x.after), x.b, x.rc, x.faulty) \/ ~x.kept}
  IN IF bad = {} \/ ~PrintT(<<"COMPACT", l, {<<i, e.steps[i].rc, Copies(h, e.steps[i].before), Copies(h, e.steps[i].after)>> : i \in bad}>>) THEN One(h, e.st) ELSE {}

\* Commands run at the same time do what they would do one after the other, in one of the orders that the times at
\* which they were started and ended allow; somebody who looks meanwhile sees what was there between two of them.
\* A state: [db, t], and how many of the looks have been accounted for.
RECURSIVE Reindexed(_, _, _)
Reindexed(db, F, M) ==
  IF M = {} THEN db
  ELSE LET m == CHOOSE x \in M : TRUE
           H == ReindexHdrs(db, m, F)
       IN Reindexed(ReindexIn(db, m, F, IF H = {} THEN "" ELSE CHOOSE x \in H : TRUE, 0), F, M \ {m})
RECURSIVE Looked(_, _, _, _)
Looked(h, r, ps, k) == IF k < Len(ps) /\ CutBad(h, r.db, ps[k + 1]) = {} THEN Looked(h, r, ps, k + 1) ELSE k
\* (A command may fail while a compaction has the database moved away; a batch with a bad line fails anyhow.)
ParOne(h, r, e, o) ==
  (IF e.st # 0 /\ e.may THEN {r} ELSE {}) \cup
  IF e.st # e.want THEN {}
  ELSE CASE e.ev = "clitag"  -> TagLines(U, {r}, [i \in 1..Len(e.lines) |-> [ops |-> e.lines[i].ops, all |-> e.all, q |-> e.lines[i].q]], e.sync)
         [] e.ev = "clinew"  -> {[db |-> Scan(U, r.db, r.t, ScanConf(e), o), t |-> r.t]}
         [] e.ev = "restore" -> RestoreLines(U, {r}, e.lines, SeqRange(e.inc), e.acc, e.sync)
         [] e.ev = "insert"  -> LET p == Visible1(e.fsops, e.folder) IN IF p = <<>> \/ p \in DOMAIN r.t.f THEN {} ELSE Inserted(U, r.db, r.t, e, p, o, FALSE)
         [] e.ev = "reindex" -> {[r EXCEPT !.db = Reindexed(@, [p \in DOMAIN r.t.f |-> Content(U, r.t.f[p])], Matching(U, @, e.q))]}
         [] e.ev = "dump"    -> IF DumpOK(U, r.db, e.q, SeqRange(e.inc), e.lines) THEN {r} ELSE {}
         [] e.ev = "cliconf" -> {[r EXCEPT !.db.conf = IF e.v = "" THEN Del(@, {e.k}) ELSE Upd(@, e.k, e.v)]}
         [] OTHER -> {r}
RECURSIVE ParRun(_, _, _, _)
ParRun(h, X, e, order) ==
  IF order = <<>> THEN X
  ELSE ParRun(h, UNION {{[r |-> y, k |-> Looked(h, y, e.peeks, x.k)] : y \in ParOne(h, x.r, e.cmds[Head(order)], e.o)} : x \in X}, e, Tail(order))
ParOrder(e, f) == \A i, j \in 1..Len(e.cmds) : e.cmds[f[i]].to < e.cmds[f[j]].from => i < j
ParCmd(h, e) ==
  LET n == Len(e.cmds)
      r0 == [db |-> h.pub, t |-> tree]
      Orders == {f \in [1..n -> 1..n] : (\A i, j \in 1..n : i # j => f[i] # f[j]) /\ ParOrder(e, f)}
      E == UNION {ParRun(h, {[r |-> r0, k |-> Looked(h, r0, e.peeks, 0)]}, e, f) : f \in Orders}
      X == TreeOf(e.tree)
      G == {x \in E : x.r.t = X /\ x.k = Len(e.peeks)}
  IN IF G = {} /\ PrintT(<<"PAR", l, [i \in 1..n |-> <<e.cmds[i].ev, e.cmds[i].st>>], {<<x.k, x.r.t = X, Bad(h, x.r.db, e.o)>> : x \in E}>>) THEN {}
     ELSE UNION {After(h, x.r, e) : x \in G}

CloseR(h) == Close(h)
OpenR(h, mode) == IF Strict THEN {r \in Open(h, mode) : r.h.db.rev = h.pub.rev} ELSE Open(h, mode)

\* the results the specification allows for one line
RECURSIVE Results(_, _)
Results(h, e) ==
  CASE e.ev = "open"    -> IF e.mode = "rw" /\ h.mode # "closed" THEN {} ELSE OpenR(h, e.mode)
    [] e.ev = "close"   -> CloseR(h)
    [] e.ev = "reopen"  -> UNION {OpenR(r.h, e.mode) \cup {[x EXCEPT !.h.cnt = h.cnt] : x \in OpenR(r.h, e.mode)} : r \in CloseR(h)}
    [] e.ev = "crash"   -> {[h |-> x, ret |-> 0] : x \in CrashOutcomes(h)}
    \* killed inside an operation: it happened completely or not at all
    [] e.ev = "crashin" -> {[h |-> Crashed(h), ret |-> 0]} \cup {[h |-> Crashed(r.h), ret |-> 0] : r \in Results(h, e.inner)}
    [] e.ev = "begin"   -> Begin(h)
    [] e.ev = "end"     -> End(h)
    [] e.ev = "add"     -> Add(h, FS, e.p, e.hint)
    [] e.ev = "remove"  -> Remove(h, e.p)
    [] e.ev = "reindex" -> Reindex(h, FS, h.slots[e.s].mid)
    [] e.ev = "fetch"   -> {r \in Fetch(h, e.s, e.m) : e.found = (e.m \in DOMAIN h.db.mail)}
    [] e.ev = "drop"    -> Drop(h, e.s)
    [] e.ev = "tag"     -> IF e.long THEN One(h, IF h.mode = "rw" THEN TOOLONG ELSE READONLY) ELSE Tag(h, e.s, e.t)
    [] e.ev = "untag"   -> IF e.long THEN One(h, IF h.mode = "rw" THEN TOOLONG ELSE READONLY) ELSE Untag(h, e.s, e.t)
    [] e.ev = "cleartags" -> ClearTags(h, e.s)
    [] e.ev = "freeze"  -> Freeze(h, e.s)
    [] e.ev = "thaw"    -> Thaw(h, e.s)
    [] e.ev = "prop"    -> IF e.bad THEN One(h, IF h.mode = "rw" THEN ILLEGALARG ELSE READONLY) ELSE Prop(h, e.s, e.k, e.v)
    [] e.ev = "unprop"  -> IF e.bad THEN One(h, IF h.mode = "rw" THEN ILLEGALARG ELSE READONLY) ELSE Unprop(h, e.s, e.k, e.v)
    [] e.ev = "clearprops" -> ClearProps(h, e.s, SeqRange(e.keys))
    [] e.ev = "setdir"  -> SetDir(h, e.d, e.t)
    [] e.ev = "deldir"  -> DelDir(h, e.d)
    [] e.ev = "setconf" -> SetConf(h, e.k, e.v)
    [] e.ev = "getconf" -> IF e.v = (IF e.k \in DOMAIN h.db.conf THEN h.db.conf[e.k] ELSE "") THEN One(h, OK) ELSE {}
    [] e.ev = "slotview" -> IF SlotOK(h, e) THEN One(h, OK) ELSE {}
    [] e.ev = "getprops" -> IF "props" \notin Cmp \/ GetPropsOK(h, e) THEN One(h, OK) ELSE {}
    [] e.ev = "query"   -> IF e.st = 0 /\ SameSet(e.ids, Matching(U, h.db, e.q)) THEN One(h, OK) ELSE {}
    [] e.ev = "search"  -> IF SearchOK(h.db, e) THEN One(h, OK) ELSE {}
    [] e.ev = "threads" -> IF ThreadsOK(h.db, e) THEN One(h, OK) ELSE {}
    [] e.ev = "show"    -> IF ShowOK(h.pub, e) THEN One(h, OK) ELSE {}
    [] e.ev = "cli"     -> IF CliOK(h.pub, e) THEN One(h, OK) ELSE {}
    [] e.ev = "clitag"  -> TagCmd(h, e)
    [] e.ev = "clinew"  -> NewCmd(h, e)
    [] e.ev = "newrace" -> RaceCmd(h, e)
    [] e.ev = "newcut"  -> CutCmd(h, e)
    [] e.ev = "par"     -> ParCmd(h, e)
    [] e.ev = "restore" -> RestoreCmd(h, e)
    [] e.ev = "dump"    -> DumpCmd(h, e)
    [] e.ev = "compact" -> CompactCmd(h, e)
    [] e.ev = "insert"  -> InsertCmd(h, e)
    \* a hook sees what was committed, and finds the database unlocked
    [] e.ev = "hookrun" -> IF e.conf /\ ~e.locked /\ TreeOf(e.tree) = tree THEN One(h, OK) ELSE {}
    [] e.ev = "hooks"   -> IF HooksOK(e) /\ (Has(e, "tree") => TreeOf(e.tree) = tree) THEN One(h, e.st) ELSE {}
    [] e.ev = "cliconf" -> One([h EXCEPT !.pub.conf = IF e.v = "" THEN Del(@, {e.k}) ELSE Upd(@, e.k, e.v), !.db.conf = IF e.v = "" THEN Del(@, {e.k}) ELSE Upd(@, e.k, e.v)], OK)
    [] e.ev \in {"file", "tree"} -> One(h, OK)
    [] e.ev = "look"    -> One(h, OK)
    [] e.ev = "peek"    -> IF \E r \in RevOnOpen(h.pub) : Bad(Closed(h.pub, h.flush), [h.pub EXCEPT !.rev = r], e.peek) = {} THEN One(h, OK) ELSE {}

Allowed(h, e) == {r \in Results(h, e) : r.ret = e.st /\ (Has(e, "o") => Bad(r.h, r.h.db, e.o) = {})}

\* changes to the mail tree made by the harness
NextFs(e) ==
  IF e.ev # "file" THEN fs
  ELSE IF e.op = "write" THEN Upd(fs, e.p, e.c)
  ELSE IF e.op = "unlink" THEN Del(fs, {e.p})
  ELSE (* rename *) Upd(Del(fs, {e.p}), e.p2, fs[e.p])

NextReset(i) == LET R == {j \in (i + 1)..N : Trace[j].ev = "reset"} IN IF R = {} THEN N + 1 ELSE CHOOSE j \in R : \A k \in R : j <= k

Why(e) == {[ret |-> r.ret, bad |-> IF Has(e, "o") THEN Bad(r.h, r.h.db, e.o) ELSE {}] : r \in UNION {Results(h, e) : h \in S}}

Init == l = 1 /\ S = {} /\ fs = Empty /\ base = 1 /\ tree = NoTree
Next ==
  /\ l <= N
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN /\ l' = l + 1
          /\ base' = l
          /\ fs' = Empty
          /\ tree' = NoTree
          /\ S' = {[Closed(EmptyDB, e.flush) EXCEPT !.auto = IF Has(e, "auto") THEN e.auto ELSE 0]}
     ELSE LET T == {r.h : r \in UNION {Allowed(h, e) : h \in S}} IN
          /\ base' = base
          /\ tree' = IF Has(e, "tree") THEN TreeOf(e.tree) ELSE tree
          /\ IF T # {}
             THEN l' = l + 1 /\ S' = T /\ fs' = NextFs(e)
             ELSE /\ PrintT(<<"REJECT", l, base, e.ev, Why(e)>>)
                  /\ l' = NextReset(l)
                  /\ S' = {} /\ fs' = fs
Done == l = N + 1 => PrintT(<<"DONE", N>>)
DBsOk == \A h \in S : DBOk(h.db) /\ DBOk(h.pub)
Spec == Init /\ [][Next]_vars
=============================================================================
