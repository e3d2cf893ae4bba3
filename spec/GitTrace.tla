------------------------------ MODULE GitTrace ------------------------------
(* Validates traces of notmuch git against Git.tla: everything is observed *)
(* after each step, and each step must be one that Git.tla allows.         *)
EXTENDS Git, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.NMV_TRACE)
N == Len(Trace)
VARIABLES l, base, W
vars == <<l, base, W>>
Range(s) == {s[i] : i \in 1..Len(s)}
Map(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]
MapS(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> Range(ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2])]
Ext(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
New(o) == [k \in {o.new[i].c : i \in 1..Len(o.new)} |-> LET n == o.new[CHOOSE i \in 1..Len(o.new) : o.new[i].c = k] IN [tree |-> Range(n.tree), par |-> n.par]]
\* the state as observed after a step of user u
After(V, e) == [db |-> [V.db EXCEPT ![e.u] = MapS(e.o.db)], head |-> [V.head EXCEPT ![e.u] = e.o.head], track |-> [V.track EXCEPT ![e.u] = e.o.track],
                hub |-> e.o.hub, C |-> Ext(V.C, New(e.o))]
\* a change of tags by somebody else meanwhile
Change(db, ch) == IF ch = <<>> THEN db ELSE [m \in DOMAIN db |-> IF m = ch[1].m THEN (db[m] \ Range(ch[1].rem)) \cup Range(ch[1].add) ELSE db[m]]
SameRefs(V, X) == X.head = V.head /\ X.track = V.track /\ X.hub = V.hub /\ X.C = V.C
Step(V, e) ==
  LET u == e.u X == After(V, e) suf == IF "px" \in DOMAIN e THEN Map(Trace[base].suf[e.px]) ELSE <<>>
      ch == e.ch h == V.head[u] tr == V.track[u]
      tree == IF h = "none" THEN {} ELSE V.C[h].tree
      old == V.db[u] mid == Change(old, ch) dbs == {old, mid}
      frac == e.frac
      forced == e.force
      newc == DOMAIN X.C \ DOMAIN V.C
      \* no step changes what others have
      Still == X.db[u] = mid
      \* what checking out commit c may do to the database, with its status
      Out(c, st) == \E b \in dbs : LET d == Diff(b, suf, X.C[c].tree) IN
        \/ st # 0 /\ ~forced /\ (\E b2 \in dbs : ~Safe(b2, suf, d, frac)) /\ Still
        \/ st = 0 /\ (forced \/ \E b2 \in dbs : Safe(b2, suf, d, frac)) /\ X.db[u] \in {Loaded(mid, suf, d), Change(Loaded(old, suf, d), ch)}
        \* (killed on its way: each message has been changed or not)
        \/ st < 0 /\ DOMAIN X.db[u] = DOMAIN mid /\ \A m \in DOMAIN mid : X.db[u][m] \in {mid[m], Loaded(mid, suf, d)[m], Change(Loaded(old, suf, d), ch)[m]}
      \* the commits that merging c into ours may give
      Merged(c) == IF c \in Anc(V.C, h) THEN X.head[u] = h /\ newc = {}
                   ELSE IF h \in Anc(V.C, c) THEN X.head[u] = c /\ newc = {}
                   ELSE X.head[u] \notin DOMAIN V.C /\ newc = {X.head[u]} /\ X.C[X.head[u]].par = <<h, c>> /\ MergeOK(V.C, h, c, X.C[X.head[u]].tree)
      Stays == X.head = V.head /\ newc = {}
      Dirty == \E b \in dbs : ~Clean(Diff(b, suf, tree))
      Tidy == \E b \in dbs : Clean(Diff(b, suf, tree))
  IN
  CASE e.ev = "own" -> SameRefs(V, X)
    [] e.ev = "look" -> SameRefs(V, X) /\ Still
    [] e.ev = "plumb" -> e.st = 0 /\ Still /\ Stays /\ (\E c \in {V.hub, X.hub} : X.track[u] \in {tr, c})
    [] e.ev = "init" -> e.st = 0 /\ Still /\ h = "none" /\ newc = {X.head[u]} /\ X.C[X.head[u]] = [tree |-> {}, par |-> <<>>] /\ X.track = V.track /\ X.hub = V.hub
    [] e.ev = "clone" -> X.head[u] = V.hub /\ X.track[u] = V.hub /\ X.hub = V.hub /\ newc = {} /\ (Out(V.hub, e.st) \/ (e.st = 0 /\ Pairs(old, suf) # {} /\ Still))
    [] e.ev = "commit" ->
       /\ Still /\ X.track = V.track /\ X.hub = V.hub
       /\ \E b \in dbs : LET d == Diff(b, suf, tree) IN
            \/ e.st = 0 /\ Clean(d) /\ Stays
            \/ e.st # 0 /\ ~Clean(d) /\ ~forced /\ (\E b2 \in dbs : ~Safe(b2, suf, d, frac)) /\ Stays
            \/ e.st < 0 /\ Stays
            \/ e.st <= 0 /\ ~Clean(d) /\ (forced \/ \E b2 \in dbs : Safe(b2, suf, d, frac)) /\ newc = {X.head[u]} /\ X.C[X.head[u]] = [tree |-> Committed(d, tree), par |-> <<h>>]
    [] e.ev = "checkout" -> SameRefs(V, X) /\ Out(h, e.st)
    [] e.ev = "status" ->
       /\ SameRefs(V, X) /\ Still
       /\ \/ e.st < 0
          \* (nothing has been fetched yet from where it is configured to come)
          \/ e.st > 0 /\ tr = "none" /\ e.cfg
          \/ /\ e.st = 0
             /\ \E b \in dbs : LET d == Diff(b, suf, tree) out == Range(e.out)
                     T == IF tr = "none" THEN {} ELSE V.C[tr].tree
                     un == tr # "none" /\ tr \notin Anc(V.C, h)
                     first(x) == IF x \in d.added THEN "A" ELSE IF x \in d.deleted THEN "D" ELSE IF x \in d.missing THEN "U" ELSE " "
                     second(x) == IF ~un THEN "" ELSE IF x \in T \ tree THEN "a" ELSE IF x \in tree \ T THEN "d" ELSE ""
                     all == d.added \cup d.deleted \cup d.missing \cup (IF un THEN (T \ tree) \cup (tree \ T) ELSE {})
                     Lines(S) == {<<first(x) \o second(x), x[1], x[2]>> : x \in S}
                 IN /\ Len(e.out) = Cardinality(out)
                    /\ \/ out = Lines(all)
                       \* (messages that have been removed since may be left out)
                       \/ LET lost == {x \in d.missing : second(x) = ""} IN Lines(all \ lost) \subseteq out /\ out \subseteq Lines(all)
                       \/ LET lost == d.missing IN LET S == {<<(IF x \in lost THEN " " ELSE first(x)) \o second(x), x[1], x[2]>> : x \in all} IN e.gone /\ \A y \in out : y \in S \/ y \in Lines(all)
    [] e.ev = "fetch" -> Still /\ Stays /\ X.hub = V.hub /\ (IF e.st = 0 THEN X.track[u] = V.hub ELSE X.track = V.track /\ (e.st < 0 \/ V.hub = "none"))
    [] e.ev = "push" -> Still /\ Stays /\
       (IF e.st = 0 THEN (V.hub = "none" \/ V.hub \in Anc(V.C, h)) /\ X.hub = h /\ X.track[u] = h
        ELSE IF e.st > 0 THEN V.hub # "none" /\ V.hub \notin Anc(V.C, h) /\ X.hub = V.hub /\ X.track = V.track
        ELSE X.hub \in {V.hub, h} /\ X.track[u] \in {tr, h} /\ (X.hub = V.hub \/ V.hub = "none" \/ V.hub \in Anc(V.C, h)))
    [] e.ev \in {"merge", "pull"} ->
       LET c == IF e.ev = "pull" THEN V.hub ELSE tr IN
       /\ X.hub = V.hub
       /\ X.track[u] \in (IF e.ev = "pull" THEN {tr, V.hub} ELSE {tr})
       /\ \/ e.st # 0 /\ Dirty /\ Stays /\ Still
          \/ e.st # 0 /\ c = "none" /\ Stays /\ Still
          \/ e.st < 0 /\ Stays /\ Still
          \/ c # "none" /\ Tidy /\ Merged(c) /\ Out(X.head[u], e.st) /\ (e.st < 0 \/ X.track[u] = c)
NextReset(i) == LET R == {j \in (i + 1)..N : Trace[j].ev = "reset"} IN IF R = {} THEN N + 1 ELSE CHOOSE j \in R : \A k \in R : j <= k
Nothing == [db |-> [u \in {"A", "B"} |-> [m \in {} |-> {}]], head |-> [u \in {"A", "B"} |-> "none"], track |-> [u \in {"A", "B"} |-> "none"], hub |-> "none", C |-> [c \in {} |-> 0]]
Why(V, e) == IF "px" \in DOMAIN e THEN LET suf == Map(Trace[base].suf[e.px]) tree == IF V.head[e.u] = "none" THEN {} ELSE V.C[V.head[e.u]].tree IN <<"diff", Diff(V.db[e.u], suf, tree), "head", V.head[e.u], "new", New(e.o)>> ELSE <<>>
Init == l = 1 /\ base = 1 /\ W = Nothing
Next ==
  /\ l <= N
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN l' = l + 1 /\ base' = l /\ W' = Nothing
     ELSE /\ base' = base
          /\ IF Step(W, e) THEN l' = l + 1 /\ W' = After(W, e)
             ELSE PrintT(<<"REJECT", l, base, e.ev, Why(W, e)>>) /\ l' = NextReset(l) /\ W' = W
Done == l = N + 1 => PrintT(<<"DONE", N>>)
Spec == Init /\ [][Next]_vars
=============================================================================
