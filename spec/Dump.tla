-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* notmuch dump and notmuch restore, on the level of the lines of a dump:  *)
(*   [k |-> "t", m |-> message, tags |-> set]       the tags of a message  *)
(*   [k |-> "p", m |-> message, props |-> pairs]    its properties         *)
(*   [k |-> "c", key, v]                            a stored setting       *)
(*   [k |-> "x"]                                    anything else          *)
(***************************************************************************)
EXTENDS Cli

Lines(s, kind) == SelectSeq(s, LAMBDA x : x.k = kind)
\* what a dump of the messages matching q says, given which parts are included
DumpOK(U, db, q, inc, s) ==
  LET M == Matching(U, db, q)
      t == Lines(s, "t") p == Lines(s, "p") c == Lines(s, "c")
      Ids(x) == [i \in 1..Len(x) |-> x[i].m]
      Once(x, X) == SeqRange(Ids(x)) = X /\ Len(x) = Cardinality(X)
  IN /\ IF "tags" \in inc THEN Once(t, M) /\ \A i \in 1..Len(t) : SeqRange(t[i].tags) = db.mail[t[i].m].tags /\ Len(t[i].tags) = Cardinality(SeqRange(t[i].tags))
        ELSE t = <<>>
     /\ IF "properties" \in inc THEN Once(p, {m \in M : db.mail[m].props # {}})
                                     /\ \A i \in 1..Len(p) : SeqRange(p[i].props) = db.mail[p[i].m].props /\ Len(p[i].props) = Cardinality(SeqRange(p[i].props))
        ELSE p = <<>>
     /\ IF "config" \in inc THEN Len(c) = Cardinality(DOMAIN db.conf) /\ {<<c[i].key, c[i].v>> : i \in 1..Len(c)} = {<<k, db.conf[k]>> : k \in DOMAIN db.conf}
        ELSE c = <<>>
     /\ Lines(s, "x") = <<>>

\* one line of a dump takes effect; lines about unknown messages have none
RestoreLine(U, r, L, inc, acc, sync) ==
  CASE L.k = "t" /\ "tags" \in inc /\ L.m \in DOMAIN r.db.mail ->
         TagLine(U, r, [q |-> [k |-> "id", v |-> L.m], all |-> ~acc, ops |-> [i \in 1..Len(L.tags) |-> [add |-> TRUE, t |-> L.tags[i]]]], sync)
    [] L.k = "p" /\ "properties" \in inc /\ L.m \in DOMAIN r.db.mail -> {[r EXCEPT !.db.mail[L.m].props = SeqRange(L.props)]}
    [] L.k = "c" /\ "config" \in inc -> {[r EXCEPT !.db.conf = Upd(@, L.key, L.v)]}
    [] OTHER -> {r}
RECURSIVE RestoreLines(_, _, _, _, _, _)
RestoreLines(U, R, s, inc, acc, sync) ==
  IF s = <<>> THEN R ELSE RestoreLines(U, UNION {RestoreLine(U, r, Head(s), inc, acc, sync) : r \in R}, Tail(s), inc, acc, sync)
=============================================================================
