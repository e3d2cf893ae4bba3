------------------------------ MODULE MCShare ------------------------------
(* All interleavings of a few processes that open, change, commit, read, reopen and die. *)
EXTENDS Share, TLC
CONSTANTS Procs, Mids, Tags, MaxRev, MaxPubs, MaxUsed
VARIABLES W, pubs, last
vars == <<W, pubs, last>>
Path(m) == <<"cur", m>>
fs == [p \in {Path(m) : m \in Mids} |-> [mid |-> p[2], refs |-> {}, ok |-> TRUE, auto |-> {}, words |-> {}, cid |-> p[2]]]

Init == W = World0(Procs, EmptyDB, 0) /\ pubs = <<EmptyDB>> /\ last = [p \in Procs |-> EmptyDB]
\* pubs: everything that was ever committed; last: the committed state p's changes start from
Done(p, h, opened, ends) ==
  /\ W' = Did(W, p, h, opened, ends)
  /\ pubs' = IF h.pub # W.pub THEN Append(pubs, h.pub) ELSE pubs
  /\ last' = IF opened \/ h.pub # W.pub THEN [last EXCEPT ![p] = h.pub] ELSE last
OpenP(p, mode) == /\ W.hs[p].mode = "closed" /\ (mode = "rw" => MayWrite(W, p))
                  /\ \E r \in Open(Mine(W, p), mode) : Done(p, r.h, TRUE, FALSE)
CloseP(p) == W.hs[p].mode # "closed" /\ \E r \in Close(Mine(W, p)) : Done(p, r.h, FALSE, TRUE)
ReopenP(p, mode) == /\ W.hs[p].mode # "closed" /\ (mode = "rw" => MayWrite(W, p))
                    /\ \E r \in Close(Mine(W, p)) : \E x \in Open(r.h, mode) : Done(p, x.h, TRUE, TRUE)
CrashP(p) == W.hs[p].mode # "closed" /\ \E h \in CrashOutcomes(Mine(W, p)) : Done(p, h, FALSE, TRUE)
Change(p) ==
  /\ W.hs[p].mode # "closed" /\ W.hs[p].db.rev < MaxRev
  /\ \E R \in {Begin(Mine(W, p)), End(Mine(W, p))} \cup {Add(Mine(W, p), fs, Path(m), ToString(Cardinality(W.hs[p].db.used))) : m \in Mids} \cup {Remove(Mine(W, p), Path(m)) : m \in {x \in Mids : W.hs[p].slots = Empty}}
              \cup {Fetch(Mine(W, p), "1", m) : m \in IF Tags = {} THEN {} ELSE Mids}
              \cup (IF "1" \in DOMAIN W.hs[p].slots THEN {Tag(Mine(W, p), "1", t) : t \in Tags} \cup {Untag(Mine(W, p), "1", t) : t \in Tags} ELSE {}) :
       \E r \in R : Done(p, r.h, FALSE, FALSE)
Next == \E p \in Procs : (\E mode \in {"ro", "rw"} : OpenP(p, mode) \/ ReopenP(p, mode)) \/ CloseP(p) \/ CrashP(p) \/ Change(p)
Spec == Init /\ [][Next]_vars
Bound == Len(pubs) <= MaxPubs /\ \A p \in Procs : W.hs[p].depth <= 1 /\ Cardinality(W.hs[p].db.used) <= MaxUsed

Sym == Permutations(Procs)

View == <<[W EXCEPT !.hs = [p \in Procs |-> [W.hs[p] EXCEPT !.cnt = 0]]], pubs, last>>
SeqSet(s) == {s[i] : i \in 1..Len(s)}
NoRev(db) == [db EXCEPT !.rev = 0]
OneWriter == Cardinality(Writers(W)) <= 1
\* a reader has one committed state, and may only be given others that were committed since
ReadersSeeCommits == \A p \in Procs : W.hs[p].mode = "ro" =>
   /\ NoRev(W.hs[p].db) \in {NoRev(x) : x \in SeqSet(pubs)}
   /\ {NoRev(x) : x \in Views(W, p)} \subseteq {NoRev(x) : x \in SeqSet(pubs)}
\* what a writer builds on is what is committed: nobody's commit is overwritten
NothingLost == \A p \in Writers(W) : last[p] = W.pub
WorldOk == DBOk(W.pub) /\ \A p \in Procs : DBOk(W.hs[p].db)
PubIsLast == W.pub = pubs[Len(pubs)]
=============================================================================
