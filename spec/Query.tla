------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* The meaning of queries: which messages of a database value match.       *)
(* A query is a record with a field k naming its kind.  U.contents maps a  *)
(* content id to what the file says (date, from, subj).  U.saved maps the  *)
(* stored text of a saved query to the query it stands for.                *)
(***************************************************************************)
EXTENDS Store

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
SeqRange(s) == {s[i] : i \in 1..Len(s)}

\* a revision in a query: negative ones count from the newest
Rev(db, x) == IF x < 0 THEN db.rev + x ELSE x
\* the values of a field of a message
Values(db, m, f) == CASE f = "tag" -> db.mail[m].tags
                      [] f = "property" -> db.mail[m].props
                      [] f = "folder" -> {FolderOf(p) : p \in db.mail[m].files}
                      [] f = "thread" -> {db.mail[m].tid}

RECURSIVE Match(_, _, _, _)
Match(U, db, m, q) ==
  LET r == db.mail[m] IN
  CASE q.k = "all"    -> TRUE
    [] q.k = "none"   -> FALSE
    [] q.k = "id"     -> m = q.v
    [] q.k = "idin"   -> m \in SeqRange(q.v)
    [] q.k = "thread" -> r.tid = q.v
    [] q.k = "tag"    -> q.v \in r.tags
    [] q.k = "tagin"  -> r.tags \cap SeqRange(q.v) # {}
    [] q.k = "anytag" -> r.tags # {}
    [] q.k = "prop"   -> <<q.key, q.v>> \in r.props
    [] q.k = "propin" -> r.props \cap SeqRange(q.v) # {}
    [] q.k = "anyprop" -> r.props # {}
    [] q.k = "folder" -> \E p \in r.files : FolderOf(p) = q.v
    [] q.k = "folderin" -> \E p \in r.files : FolderOf(p) \in SeqRange(q.v)
    [] q.k = "path"   -> \E p \in r.files : DirOf(p) = q.v
    [] q.k = "pathr"  -> \E p \in r.files : IsPrefixOf(q.v, DirOf(p))
    [] q.k = "word"   -> q.v \in r.words
    [] q.k = "wordin" -> r.words \cap SeqRange(q.v) # {}
    [] q.k = "hdr"    -> r.hdr \in SeqRange(q.v)
    [] q.k = "date"   -> LET d == U.contents[r.hdr].date IN q.lo <= d /\ d <= q.hi
    [] q.k = "lastmod" -> Rev(db, q.lo) <= r.lm /\ r.lm <= Rev(db, q.hi)
    [] q.k = "and"    -> \A i \in 1..Len(q.a) : Match(U, db, m, q.a[i])
    [] q.k = "or"     -> \E i \in 1..Len(q.a) : Match(U, db, m, q.a[i])
    [] q.k = "xor"    -> Match(U, db, m, q.a[1]) # Match(U, db, m, q.a[2])
    [] q.k = "not"    -> \A i \in 1..Len(q.a) : ~Match(U, db, m, q.a[i])
    \* messages that have a value in common with one that matches
    [] q.k = "share"  -> \E n \in DOMAIN db.mail : Values(db, m, q.f) \cap Values(db, n, q.f) # {} /\ Match(U, db, n, q.a[1])
    [] q.k = "saved"  -> q.v \in DOMAIN db.conf /\ Match(U, db, m, U.saved[db.conf[q.v]])

Matching(U, db, q) == {m \in DOMAIN db.mail : Match(U, db, m, q)}

\* the tags a query names
RECURSIVE Named(_, _, _)
Named(U, db, q) ==
  CASE q.k = "tag"   -> {q.v}
    [] q.k = "tagin" -> SeqRange(q.v)
    [] q.k \in {"and", "or", "xor", "not"} -> UNION {Named(U, db, q.a[i]) : i \in 1..Len(q.a)}
    [] q.k = "saved" -> IF q.v \in DOMAIN db.conf THEN Named(U, db, U.saved[db.conf[q.v]]) ELSE {}
    [] OTHER -> {}

(***************************************************************************)
(* Searching with excluded tags.  mode is "true" (hide), "all" (hide, also *)
(* within threads), "flag" or "false".                                     *)
(***************************************************************************)
Excluded(U, db, q, excl) == {m \in Matching(U, db, q) : db.mail[m].tags \cap (excl \ Named(U, db, q)) # {}}
Found(U, db, q, excl, mode) == Matching(U, db, q) \ (IF mode \in {"true", "all"} THEN Excluded(U, db, q, excl) ELSE {})
Flagged(U, db, q, excl, mode) == IF mode = "flag" THEN Excluded(U, db, q, excl) ELSE {}
\* the messages of a thread that a search shows: all of them, but those with excluded tags in mode "all"
Hidden(U, db, m, q, excl) == db.mail[m].tags \cap (excl \ Named(U, db, q)) # {}
Listed(U, db, t, q, excl, mode) == {m \in ThreadMail(db, t) : mode = "all" => ~Hidden(U, db, m, q, excl)}

DateOf(U, db, m) == U.contents[db.mail[m].hdr].date
\* s is in the promised order
Ordered(U, db, s, sort) ==
  \A i \in 1..(Len(s) - 1) :
    CASE sort = "old" -> DateOf(U, db, s[i]) <= DateOf(U, db, s[i + 1])
      [] sort = "new" -> DateOf(U, db, s[i]) >= DateOf(U, db, s[i + 1])
      [] sort = "id"  -> U.rank[s[i]] < U.rank[s[i + 1]]
      [] OTHER -> TRUE

(***************************************************************************)
(* How the messages of a thread are shown.  T is the set of messages shown *)
(* and par gives the parent of each ("" for those at the top).             *)
(* Contents give replyto, the message this one says it answers ("": none). *)
(***************************************************************************)
RECURSIVE Anc(_, _)
Anc(par, m) == IF m = "" THEN {} ELSE {m} \cup Anc(par, par[m])
TreeOK(U, db, T, par) ==
  LET Below(x) == {m \in T : x \in Anc(par, m)}
      irt == [m \in T |-> U.contents[db.mail[m].hdr].replyto]
      via == {m \in T : irt[m] \in T /\ irt[m] \notin Below(m)}
      RECURSIVE Depth(_)
      Depth(m) == IF m \in via THEN 1 + Depth(irt[m]) ELSE 0
  IN /\ \A m \in via : par[m] = irt[m]
     \* the others go below one of the messages they refer to, the deepest one, or to the top
     /\ \A m \in T \ via :
          LET C == ((SeqRange(U.contents[db.mail[m].hdr].refs) \cap T) \ {m}) \ Below(m) IN
          IF C = {} THEN par[m] = "" ELSE par[m] \in C /\ \A c \in C : Depth(c) <= Depth(par[m])

\* one thread of a search
Oldest(U, db, M) == {m \in M : \A n \in M : DateOf(U, db, m) <= DateOf(U, db, n)}
Newest(U, db, M) == {m \in M : \A n \in M : DateOf(U, db, m) >= DateOf(U, db, n)}
Author(U, db, m) == U.contents[db.mail[m].hdr].author
AuthorsOK(U, db, s, M) ==
  LET First(a) == CHOOSE m \in M : Author(U, db, m) = a /\ \A n \in M : Author(U, db, n) = a => DateOf(U, db, m) <= DateOf(U, db, n) IN
  /\ SeqRange(s) = {Author(U, db, m) : m \in M} /\ Cardinality(SeqRange(s)) = Len(s)
  /\ \A i \in 1..(Len(s) - 1) : DateOf(U, db, First(s[i])) <= DateOf(U, db, First(s[i + 1]))

\* the sequence without repetitions, in order of first occurrence
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF x \in SeqRange(r) THEN r ELSE Append(r, x)
\* The part of s that --offset and --limit ask for (limit < 0: no limit; a negative offset counts from the end).
Page(s, off, lim) ==
  LET o0 == IF off < 0 THEN Len(s) + off ELSE off
      o == IF o0 < 0 THEN 0 ELSE o0
      e == IF lim < 0 \/ o + lim > Len(s) THEN Len(s) ELSE o + lim
  IN SubSeq(s, o + 1, e)
RECURSIVE SumLen(_)
SumLen(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumLen(Tail(s))
SumSet(S, f) == LET RECURSIVE Go(_) Go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + Go(T \ {x}) IN Go(S)
=============================================================================
