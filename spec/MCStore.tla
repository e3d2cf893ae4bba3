------------------------------ MODULE MCStore ------------------------------
(***************************************************************************)
(* Bounded model checking of Store.tla: every behaviour of one writer over *)
(* a small universe, with crashes and closes at every point.  History      *)
(* variables remember what a user was told, and the invariants state the   *)
(* listed properties over them.                                            *)
(***************************************************************************)
EXTENDS Store, Json
CONSTANTS NMids, MaxSteps, Mode,    \* Mode: "threads" or "sections"
          Gen    \* TRUE: write every behaviour out, for replay against the implementation
Mids == 1..NMids
Content(m, refs) == [cid |-> <<m, refs>>, mid |-> m, refs |-> refs, words |-> {}, auto |-> {}, ok |-> TRUE]
Contents == IF Mode = "threads" THEN {Content(m, R) : m \in Mids, R \in SUBSET Mids} ELSE {Content(m, {}) : m \in Mids}
\* a path is named after what it contains, so the mail tree is constant
PathOf(c, i) == <<c.mid, c.refs, i>>
Fs == [p \in {PathOf(c, i) : c \in Contents, i \in IF Mode = "threads" THEN {1} ELSE {1, 2}} |-> Content(p[1], p[2])]
VARIABLES h, n, links, acked, maxrev, hist
vars == <<h, n, links, acked, maxrev, hist>>
\* links    : the pairs of identifiers ever linked by a file added, minus those of threads that died
\* acked    : what every other process must see: the last published value as computed independently
\* maxrev   : highest revision ever published
FreshTid == MaxOf(h.db.used) + 1
Alive(db) == DOMAIN db.mail \cup DOMAIN db.ghost
NewLinks(db0, db, L, c) == {e \in L \cup {{c.mid, r} : r \in c.refs \cup {c.mid}} : e \subseteq Alive(db)}
Keep(db, L) == {e \in L : e \subseteq Alive(db)}
Init == h \in {[Closed(EmptyDB, f) EXCEPT !.mode = "rw"] : f \in IF Mode = "threads" THEN {TRUE} ELSE {TRUE, FALSE}} /\ n = 0 /\ links = [d |-> {}, p |-> {}] /\ acked = EmptyDB /\ maxrev = 0 /\ hist = <<>>
\* links.d belongs to h.db, links.p to h.pub, links.b to h.base
Pubs(hh) == hh.pub
Note(a) == hist' = IF Gen THEN Append(hist, a) ELSE hist
Do(r, L, a) ==
  /\ Note(a)
  /\ h' = r.h /\ n' = n + 1
  /\ links' = [d |-> L, p |-> IF r.h.pub = r.h.db THEN L ELSE IF r.h.pub = h.pub THEN links.p ELSE links.d]
  /\ acked' = IF h.depth > 0 /\ r.h.depth > 0 THEN acked ELSE r.h.pub
  /\ maxrev' = IF r.h.pub.rev > maxrev THEN r.h.pub.rev ELSE maxrev
AddStep == \E p \in DOMAIN Fs : \E r \in Add(h, Fs, p, FreshTid) : Do(r, NewLinks(h.db, r.h.db, links.d, Fs[p]), [ev |-> "add", m |-> p[1], refs |-> p[2], i |-> p[3]])
RemoveStep == \E p \in UNION {h.db.mail[m].files : m \in DOMAIN h.db.mail} : \E r \in Remove(h, p) : Do(r, Keep(r.h.db, links.d), [ev |-> "remove", m |-> p[1], refs |-> p[2], i |-> p[3]])
TagStep == \E m \in DOMAIN h.db.mail : \E f \in Fetch(h, "s", m) : \E r \in Tag(f.h, "s", "t") : \E d \in Drop(r.h, "s") : Do([h |-> d.h, ret |-> r.ret], links.d, [ev |-> "tag", m |-> m])
SectionStep == h.mode = "rw" /\ h.depth < 2 /\ \E r \in Begin(h) : Do(r, links.d, [ev |-> "begin"])
EndStep == h.depth > 0 /\ \E r \in End(h) : Do(r, links.d, [ev |-> "end"])
Back == h.mode = "rw"
CrashStep == Note([ev |-> "crash"]) /\ \E x \in CrashOutcomes(h) : \E r \in Open(x, "rw") : h' = r.h /\ n' = n + 1 /\ links' = [d |-> links.p, p |-> links.p] /\ acked' = r.h.pub /\ maxrev' = maxrev
CloseStep == Note([ev |-> "close"]) /\ h.depth = 0 /\ \E x \in Close(h) : \E r \in Open(x.h, "rw") : h' = r.h /\ n' = n + 1 /\ links' = [d |-> links.d, p |-> links.d] /\ acked' = r.h.pub /\ maxrev' = r.h.pub.rev
Next ==
  /\ n < MaxSteps
  /\ \/ AddStep \/ RemoveStep
     \/ Mode = "sections" /\ (TagStep \/ SectionStep \/ EndStep \/ CrashStep \/ CloseStep)
Spec == Init /\ [][Next]_vars
\* one behaviour per transition (kind of last step and state reached)
Emit == Gen /\ n = MaxSteps => PrintT(<<"HIST", h.flush, ToJson(hist)>>)
View == IF Gen THEN <<h, links, IF hist = <<>> THEN "" ELSE hist[Len(hist)], n>> ELSE IF Mode = "threads"
        THEN <<[m \in DOMAIN h.db.mail |-> <<h.db.mail[m].files, h.db.mail[m].tid>>], h.db.ghost, h.db.used, links.d, h.flush>>
        ELSE <<h, links, acked, maxrev>>

\* --- the listed properties
TypeDB == DBOk(h.db) /\ DBOk(h.pub)
RECURSIVE Reach(_, _)
Reach(L, X) == LET Y == X \cup UNION {e \in L : e \cap X # {}} IN IF Y = X THEN X ELSE Reach(L, Y)
Components(db, L) == \A a, b \in Alive(db) : (TidOf(db, a) = TidOf(db, b)) <=> b \in Reach(L, {a})
\* P04
Threads == Components(h.db, links.d)
\* P03: nobody sees part of a section
Hidden == h.depth > 0 => h.pub = acked
\* P06
OneOwner == \A p \in DOMAIN Fs : Cardinality(FileOwners(h.db, p)) <= 1
\* P08
Marks == \A m \in DOMAIN h.db.mail : h.db.mail[m].lm <= h.db.rev + (IF h.depth > 0 THEN 1 ELSE 0)
Published == h.pub.rev <= maxrev
\* P08, as a step property: a mark only moves to the newest revision, and the counter only moves up
StepMarks == [][ (h'.mode = "rw" /\ h.mode = "rw" /\ h'.db.rev >= h.db.rev /\ h'.db # h.pub) =>
   \A m \in DOMAIN h'.db.mail : m \in DOMAIN h.db.mail /\ h'.db.mail[m].lm # h.db.mail[m].lm => h'.db.mail[m].lm > h.db.rev ]_vars
\* P04, as a step property: adding merges threads, it never splits one
StepThreads == [][ \A a, b \in DOMAIN h.db.mail \cap DOMAIN h'.db.mail :
   (h.db.mail[a].tid = h.db.mail[b].tid /\ n' = n + 1 /\ h'.pub # h.base /\ h'.depth >= h.depth) => (TidOf(h'.db, a) = TidOf(h'.db, b)) ]_vars
=============================================================================
