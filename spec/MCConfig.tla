------------------------------ MODULE MCConfig ------------------------------
(* Histories of settings changed in files and databases, looked at from    *)
(* every environment.                                                      *)
EXTENDS Config
VARIABLES W, old, last
vars == <<W, old, last>>
O(S) == {<<>>} \cup {<<x>> : x \in S}
AllEnvs == {[arg |-> a, conf |-> c, prof |-> p, db |-> d, xdgc |-> <<>>, xdgd |-> x, maildir |-> m, name |-> <<>>, email |-> <<>>, home |-> "/h", gecos |-> "G", login |-> "l"] :
          a \in O({"", "/c1"}), c \in O({"/c1"}), p \in O({"p"}), d \in O({"/d1", "/none"}), x \in O({"/xd"}), m \in O({"/d1"})}
\* at most two things are said by the environment
Set(E) == Cardinality({v \in {"arg", "conf", "prof", "db", "xdgd", "maildir"} : E[v] # <<>>})
Envs == {E \in AllEnvs : Set(E) <= 2}
Keys == {"new.tags", "database.path", "query.a"}
Vals(k) == IF k = "database.path" THEN {"/d1", "mail"} ELSE {"a", "a;b", ""}
Dbs == {"/d1", "/h/mail", "/xd/notmuch/p"}
Init == /\ \E F \in SUBSET {"/c1", "/h/.notmuch-config.p", "/h/.config/notmuch/default/config"}, D \in SUBSET Dbs :
             W = [files |-> [f \in F |-> NoConf], dirs |-> D \cup {"/h"}, dbs |-> [d \in D |-> [nested |-> d # "/xd/notmuch/p", conf |-> NoConf, rel |-> {"m"}]]]
        /\ old = W /\ last = [k |-> "none"]
CONSTANT Steps
Next == /\ TLCGet("level") <= Steps
        /\ \E E \in {e \in Envs : Set(e) <= 1}, k \in Keys : \E vs \in {<<>>} \cup {<<v>> : v \in Vals(k)} \cup (IF k = "database.path" THEN {} ELSE {<<"x", "y z">>}) :
             \/ MaySet(W, E, k, vs, TRUE) /\ W' = AfterSet(W, E, k, vs) /\ old' = W /\ last' = [k |-> k, E |-> E, vs |-> vs, db |-> FALSE]
             \/ k # "database.path" /\ MaySetDb(W, E, k, vs) /\ W' = AfterSetDb(W, E, k, vs) /\ old' = W /\ last' = [k |-> k, E |-> E, vs |-> vs, db |-> TRUE]
Depends(k) == IF k = "database.path" THEN {"database.path", "database.mail_root", "database.hook_dir", "database.backup_dir"} ELSE {k}
\* What was set reads back, item by item.
ReadsBack == last.k # "none" /\ last.vs # <<>> /\ (~last.db \/ last.k \notin DOMAIN Conf(W, last.E)) /\ last.k # "database.path" /\ (last.db => last.vs[1] # "") =>
               Settings(W, last.E)[last.k] = (IF Len(last.vs) = 1 THEN last.vs[1] ELSE Listed(last.vs))
\* Everything else is worth what it was, from everywhere (unless another database is used now).
OthersStay == last.k # "none" => \A E \in Envs : DbPath(old, E) = DbPath(W, E) /\ HasConf(W, E) =>
               LET a == Settings(old, E) b == Settings(W, E)
               IN \A k \in DOMAIN a \ Depends(last.k) : k \in DOMAIN b /\ b[k] = a[k]
\* The database used and the one named agree; a named environment wins over every file.
Agree == \A E \in Envs : Opens(W, E) => Settings(W, E)["database.path"] = DbPath(W, E)[1] /\ (E.db # <<>> => DbPath(W, E) = E.db)
\* An explicit file wins over the environment, that over the standard places; without a file nothing is taken from one.
FileOrder == \A E \in Envs : (E.arg # <<>> => \A c \in O({"/c1"}) : ConfPath(W, [E EXCEPT !.conf = c]) = ConfPath(W, E)) /\ (E.arg = <<"">> => Conf(W, E) = NoConf)
\* A file hides the database, the database the default.
Order == \A E \in Envs : \A k \in Keys \ {"database.path"} :
           /\ k \in DOMAIN Conf(W, E) => Settings(W, E)[k] = Conf(W, E)[k]
           /\ k \notin DOMAIN Conf(W, E) /\ Opens(W, E) /\ k \in DOMAIN Db(W, E).conf => Settings(W, E)[k] = Db(W, E).conf[k]
Spec == Init /\ [][Next]_vars
=============================================================================
