----------------------------- MODULE ShareTrace -----------------------------
(***************************************************************************)
(* Validates traces of several processes with one database against         *)
(* Share.tla.  As StoreTrace.tla, but S is a set of worlds, and every line *)
(* names a process.                                                        *)
(***************************************************************************)
EXTENDS Share, StoreTrace

Err == "!"
Ok1(W) == {[w |-> W, ret |-> OK]}
\* a reader's answer, taken apart: every part that is there comes from one of the states
FromViews(V, m, x, P(_, _)) == x.err \/ \E v \in V : m \in DOMAIN v.mail /\ P(v.mail[m], x.v)
LookOK(W, e) ==
  LET m == W.hs[e.pr].slots[e.s].mid
      V == Views(W, e.pr)
      o == e.v
  IN /\ o.id.err \/ o.id.v = m
     /\ FromViews(V, m, o.tags, LAMBDA r, x : SameSet(x, r.tags))
     /\ FromViews(V, m, o.props, LAMBDA r, x : SameSet(x, r.props))
     /\ FromViews(V, m, o.tid, LAMBDA r, x : x = r.tid)
     /\ FromViews(V, m, o.files, LAMBDA r, x : SameSet(x, r.files))
     /\ FromViews(V, m, o.again, LAMBDA r, x : SameSet(x, r.files))
     /\ (FromViews(V, m, o.subj, LAMBDA r, x : x = U.contents[r.hdr].subj)
        \* (of a message that is gone the storage reports empty headers: named deviation)
        \/ (Overtaken(W, e.pr) /\ o.subj.v = "" /\ (o.id.err \/ \E v \in V : m \notin DOMAIN v.mail)))
     \* errors are for those who are overtaken
     /\ Overtaken(W, e.pr) \/ \A f \in DOMAIN o : ~o[f].err
IdsOK(W, e) ==
  LET got == SeqRange(e.ids) \ {Err}
      full == Err \notin SeqRange(e.ids) /\ e.st = 0
  IN /\ full \/ Overtaken(W, e.pr)
     /\ e.st # 0 \/ \E v \in Views(W, e.pr) : LET X == Matching(U, v, e.q) IN IF full THEN SameSet(e.ids, X) ELSE got \subseteq X

Lift(W, e, R) == {[w |-> Did(W, e.pr, r.h, e.ev \in {"open", "reopen"}, e.ev \in {"close", "reopen", "crash"}), ret |-> r.ret] : r \in R}
Granted(W, e) == e.mode = "rw" => MayWrite(W, e.pr)
WResults(W, e) ==
  LET h == Mine(W, e.pr) over == Overtaken(W, e.pr) IN
  CASE e.ev \in {"open", "reopen"} -> IF e.st # 0 THEN (IF Granted(W, e) THEN {} ELSE {[w |-> W, ret |-> e.st]})
                                       ELSE IF Granted(W, e) THEN {IF e.ev = "open" THEN [r EXCEPT !.w = ConfAt(@, e.pr, @.hs[e.pr].db.conf)] ELSE r : r \in Lift(W, e, Results(h, e))}
                                       ELSE {}
    \* an open for writing that does not return
    [] e.ev = "wait"  -> IF MustWait(W, e.pr) THEN Ok1(W) ELSE {}
    \* what a waiting process that was killed leaves
    [] e.ev = "gone"  -> Ok1(W)
    [] e.ev = "see"   -> IF e.s \in DOMAIN W.hs[e.pr].slots /\ LookOK(W, e) THEN Ok1(W) ELSE {}
    [] e.ev = "glance" -> LET m == W.hs[e.pr].slots[e.s].mid IN
                          IF FromViews(Views(W, e.pr), m, e.v, LAMBDA r, x : SameSet(x, r.tags)) /\ (Overtaken(W, e.pr) \/ ~e.v.err) THEN Ok1(W) ELSE {}
    [] e.ev = "ids"   -> IF IdsOK(W, e) THEN {[w |-> W, ret |-> e.st]} ELSE {}
    [] e.ev = "rev"   -> IF e.uuid /\ e.rev \in UNION {RevOnOpen(v) \cup {v.rev} : v \in Views(W, e.pr)} THEN Ok1(W) ELSE {}
    [] e.ev = "died"  -> IF over /\ e.rc = 1 THEN {[w |-> Did(W, e.pr, CloseGood(h), FALSE, TRUE), ret |-> e.st]} ELSE {}
    [] e.ev = "fetch" /\ over ->
         LET g == [h EXCEPT !.slots = IF e.st = 0 /\ e.found THEN Upd(@, e.s, [mid |-> e.m, frozen |-> 0, tags |-> {}, props |-> {}, mod |-> FALSE]) ELSE Del(@, {e.s})]
         IN IF e.st # 0 \/ \E v \in Views(W, e.pr) : e.found = (e.m \in DOMAIN v.mail) THEN {[w |-> Did(W, e.pr, g, FALSE, FALSE), ret |-> e.st]} ELSE {}
    [] e.ev = "getconf" -> IF e.v = (IF e.k \in DOMAIN W.conf[e.pr] THEN W.conf[e.pr][e.k] ELSE "") THEN Ok1(W) ELSE {}
    [] e.ev = "setconf" -> LET R == Lift(W, e, Results(h, e)) IN {IF r.ret = OK THEN [r EXCEPT !.w = ConfAt(@, e.pr, Upd(@.conf[e.pr], e.k, e.v))] ELSE r : r \in R}
    [] e.ev = "file" -> Ok1(W)
    [] OTHER -> Lift(W, e, Results(h, e))
WAllowed(W, e) == {r \in WResults(W, e) : r.ret = e.st /\ (Has(e, "o") /\ ~Overtaken(r.w, e.pr) => Bad(r.w.hs[e.pr], r.w.hs[e.pr].db, e.o) = {})}
WWhy(e) == {[ret |-> r.ret, bad |-> IF Has(e, "o") THEN Bad(r.w.hs[e.pr], r.w.hs[e.pr].db, e.o) ELSE {}, late |-> r.w.late] : r \in UNION {WResults(W, e) : W \in S}}

SNext ==
  /\ l <= N
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN /\ l' = l + 1 /\ base' = l /\ fs' = Empty /\ tree' = NoTree
          /\ S' = {World0(SeqRange(e.procs), EmptyDB, IF Has(e, "auto") THEN e.auto ELSE 0)}
     ELSE LET T == {r.w : r \in UNION {WAllowed(W, e) : W \in S}} IN
          /\ base' = base /\ tree' = tree
          /\ IF T # {} THEN l' = l + 1 /\ S' = T /\ fs' = NextFs(e)
             ELSE /\ PrintT(<<"REJECT", l, base, e.ev, WWhy(e), {[p \in DOMAIN W.hs |-> W.hs[p].mode] : W \in S}>>)
                  /\ l' = NextReset(l) /\ S' = {} /\ fs' = fs
WorldsOk == \A W \in S : DBOk(W.pub) /\ Cardinality(Writers(W)) <= 1
SSpec == Init /\ [][SNext]_vars
=============================================================================
