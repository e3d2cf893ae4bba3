----------------------------- MODULE ConfTrace -----------------------------
(* Validates traces of notmuch config (and searches) against Config.tla.   *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.NMV_TRACE)
N == Len(Trace)
VARIABLES l, base, Ws
vars == <<l, base, Ws>>
Range(s) == {s[i] : i \in 1..Len(s)}
Map(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]
World(V, w) == [files |-> [p \in {w.files[i].p : i \in 1..Len(w.files)} |-> Map(w.files[CHOOSE i \in 1..Len(w.files) : w.files[i].p = p].kv)],
             dirs |-> Range(w.dirs),
             dbs |-> [p \in {w.dbs[i].p : i \in 1..Len(w.dbs)} |-> LET x == w.dbs[CHOOSE i \in 1..Len(w.dbs) : w.dbs[i].p = p] IN [nested |-> x.nested, conf |-> IF x.fresh \/ p \notin DOMAIN V.dbs THEN NoConf ELSE V.dbs[p].conf, rel |-> Range(x.rel)]]]
Files(w) == [p \in {w[i].p : i \in 1..Len(w)} |-> Map(w[CHOOSE i \in 1..Len(w) : w[i].p = p].kv)]

\* Opening fails when there is no file, no database, or no place for the mail.
Usable(W, E) == HasConf(W, E) /\ Opens(W, E) /\ ~Homeless(W, E)
\* each result is [W, ok]; the set of states the line allows
ListOK(W, e) ==
  LET s == Settings(W, e.env) o == Map(e.out) free == IF Homeless(W, e.env) THEN {"database.mail_root"} ELSE {}
      same(k) == \/ s[k] = o[k]
                 \* (without a database to be found at the place the environment names, either will do)
                 \/ ~Opens(W, e.env) /\ e.env.db # <<>> /\ k \in {"database.path", "database.mail_root"} /\ o[k] = e.env.db[1]
  IN /\ Len(e.out) = Cardinality(DOMAIN o)
     /\ DOMAIN s \ free = DOMAIN o \ free
     /\ \A k \in DOMAIN s \ free : same(k)
Step(W, e) ==
  CASE e.ev = "world" -> {World(W, e.w)}
    [] e.ev = "list" ->
       IF ~HasConf(W, e.env) THEN (IF e.st > 0 THEN {W} ELSE {})
       ELSE IF e.st = 0 THEN (IF ListOK(W, e) THEN {W} ELSE {})
       ELSE IF Homeless(W, e.env) /\ e.st > 0 THEN {W} ELSE {}
    [] e.ev = "get" ->
       LET s == Settings(W, e.env) want == IF e.k \in DOMAIN s THEN Items(s[e.k]) ELSE <<>> IN
       IF ~HasConf(W, e.env) THEN (IF e.st > 0 THEN {W} ELSE {})
       ELSE IF e.st = 0 THEN (IF e.out = want \/ (~Opens(W, e.env) /\ e.env.db # <<>> /\ e.k \in {"database.path", "database.mail_root"}) \/ (Homeless(W, e.env) /\ e.k = "database.mail_root") THEN {W} ELSE {})
       ELSE IF Homeless(W, e.env) /\ e.st > 0 THEN {W} ELSE {}
    [] e.ev = "search" ->
       IF Usable(W, e.env) THEN (IF e.st = 0 /\ Range(e.out) = {MailRoot(W, e.env) \o "/" \o f : f \in Db(W, e.env).rel} THEN {W} ELSE {})
       ELSE IF e.st > 0 /\ e.out = <<>> THEN {W} ELSE {}
    [] e.ev = "set" ->
       LET may == IF e.indb THEN MaySetDb(W, e.env, e.k, e.vs) ELSE MaySet(W, e.env, e.k, e.vs, e.utf8)
           new == IF ~may THEN {} ELSE IF e.indb THEN {AfterSetDb(W, e.env, e.k, e.vs)} ELSE {AfterSet(W, e.env, e.k, e.vs)}
           poss == IF e.st = 0 THEN new
                   ELSE IF e.st < 0 THEN (IF e.kill THEN {W} \cup new ELSE {})
                   ELSE IF ~may \/ e.fault \/ Homeless(W, e.env) THEN {W} ELSE {}
       IN IF ~e.kept THEN {} ELSE {X \in poss : X.files = Files(e.files)}
Why(e) == IF e.ev \in {"list", "get", "search"} THEN {IF HasConf(W, e.env) THEN <<Settings(W, e.env), "opens", Opens(W, e.env), Homeless(W, e.env)>> ELSE <<"no file">> : W \in Ws} ELSE {<<W.files, IF e.indb THEN MaySetDb(W, e.env, e.k, e.vs) ELSE MaySet(W, e.env, e.k, e.vs, e.utf8)>> : W \in Ws}
NextReset(i) == LET R == {j \in (i + 1)..N : Trace[j].ev = "reset"} IN IF R = {} THEN N + 1 ELSE CHOOSE j \in R : \A k \in R : j <= k
Init == l = 1 /\ base = 1 /\ Ws = {}
Next ==
  /\ l <= N
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN l' = l + 1 /\ base' = l /\ Ws' = {[files |-> [x \in {} |-> NoConf], dirs |-> {}, dbs |-> [x \in {} |-> NoConf]]}
     ELSE LET T == UNION {Step(W, e) : W \in Ws} IN
          /\ base' = base
          /\ IF T # {} THEN l' = l + 1 /\ Ws' = T
             ELSE PrintT(<<"REJECT", l, base, e.ev, Why(e)>>) /\ l' = NextReset(l) /\ Ws' = {}
Done == l = N + 1 => PrintT(<<"DONE", N>>)
Spec == Init /\ [][Next]_vars
=============================================================================
