-------------------------------- MODULE Git --------------------------------
(***************************************************************************)
(* notmuch git: the tags of the messages of a database that begin with a   *)
(* prefix, kept in a git repository as a set of pairs <<message, rest of   *)
(* the tag>>.                                                              *)
(*                                                                         *)
(* A database is a function from its messages to their sets of tags; a     *)
(* commit is [tree |-> set of pairs, par |-> sequence of commits].         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* suf: what is left of each tag that begins with the prefix
Pairs(db, suf) == UNION {{<<m, suf[t]>> : t \in db[m] \cap DOMAIN suf} : m \in DOMAIN db}
Tag(suf, s) == CHOOSE t \in DOMAIN suf : suf[t] = s
Of(S, m) == {x \in S : x[1] = m}
Who(S) == {x[1] : x \in S}
\* -- the difference between a tree and a database
Diff(db, suf, tree) == LET P == Pairs(db, suf) IN
  [added |-> P \ tree, deleted |-> {x \in tree \ P : x[1] \in DOMAIN db}, missing |-> {x \in tree \ P : x[1] \notin DOMAIN db}]
Clean(d) == d.added = {} /\ d.deleted = {}
\* the share of messages that a step may change without being forced; frac = <<numerator, denominator>>
Safe(db, suf, d, frac) == LET total == Cardinality(Who(Pairs(db, suf))) IN
  total > 0 /\ (Cardinality(Who(d.added)) + Cardinality(Who(d.deleted))) * frac[2] <= frac[1] * total
Committed(d, tree) == (tree \cup d.added) \ d.deleted
\* messages whose tags are those of the tree; all other tags stay
Loaded(db, suf, d) == [m \in DOMAIN db |-> (db[m] \ {Tag(suf, x[2]) : x \in Of(d.added, m)}) \cup {Tag(suf, x[2]) : x \in Of(d.deleted, m)}]
\* -- histories
RECURSIVE Anc(_, _)
Anc(C, c) == {c} \cup UNION {Anc(C, C[c].par[i]) : i \in 1..Len(C[c].par)}
Bases(C, a, b) == LET K == Anc(C, a) \cap Anc(C, b) IN {x \in K : \A y \in K \ {x} : x \notin Anc(C, y)}
\* each side's additions and removals (where there are several common ancestors that disagree, either is right)
MergeOK(C, a, b, t) == LET H == C[a].tree K == C[b].tree B == {C[x].tree : x \in Bases(C, a, b)} IN
  /\ t \subseteq H \cup K \* nothing new
  /\ H \cap K \subseteq t
  /\ \A x \in (H \ K) \cup (K \ H) :
       /\ (\A T \in B : x \in T) => x \notin t
       /\ (\A T \in B : x \notin T) => x \in t
=============================================================================
