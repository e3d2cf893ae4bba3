----------------------------- MODULE MCGitShare -----------------------------
(***************************************************************************)
(* Two users who share tags through a repository: commits, pushes and      *)
(* merges as in Git.tla.  What is done to different pairs is independent,  *)
(* so there is one pair, <<"m", "s">>.                                     *)
(***************************************************************************)
EXTENDS Git
CONSTANTS MaxCommits
VARIABLES C, head, hub
vars == <<C, head, hub>>
Users == {"A", "B"}
X == <<"m", "s">>
Init == C = [c \in {1} |-> [tree |-> {}, par |-> <<>>]] /\ head = [u \in Users |-> 1] /\ hub = 1
N == Cardinality(DOMAIN C)
Add(t, p) == C' = [c \in 1..(N + 1) |-> IF c <= N THEN C[c] ELSE [tree |-> t, par |-> p]]
Commit(u) == N < MaxCommits /\ Add({X} \ C[head[u]].tree, <<head[u]>>) /\ head' = [head EXCEPT ![u] = N + 1] /\ UNCHANGED hub
Push(u) == hub # head[u] /\ hub \in Anc(C, head[u]) /\ hub' = head[u] /\ UNCHANGED <<C, head>>
Merge(u, c) ==
  /\ c \notin Anc(C, head[u])
  /\ \/ head[u] \in Anc(C, c) /\ head' = [head EXCEPT ![u] = c] /\ UNCHANGED <<C, hub>>
     \/ /\ head[u] \notin Anc(C, c) /\ N < MaxCommits
        /\ \E t \in SUBSET {X} : MergeOK(C, head[u], c, t) /\ Add(t, <<head[u], c>>)
        /\ head' = [head EXCEPT ![u] = N + 1] /\ UNCHANGED hub
\* (from the shared repository, or straight from each other)
Pull(u) == Merge(u, hub)
Direct(u) == \E v \in Users \ {u} : Merge(u, head[v])
Next == \E u \in Users : Commit(u) \/ Push(u) \/ Pull(u) \/ Direct(u)
Spec == Init /\ [][Next]_vars
\* commits by which somebody gave or took the tag
Own(c) == Len(C[c].par) = 1
Gave(c) == Own(c) /\ X \in C[c].tree
Took(c) == c # 1 /\ Own(c) /\ X \notin C[c].tree
\* (after merges in both directions the common ancestors may disagree, see MergeOK)
Plain(H) == \A c \in H : Len(C[c].par) = 2 => Cardinality({C[b].tree : b \in Bases(C, C[c].par[1], C[c].par[2])}) = 1
\* What was done last, everything contrary to it being known then, is what holds.
Kept == \A h \in {head[u] : u \in Users} \cup {hub} : LET H == Anc(C, h) IN Plain(H) =>
  /\ (\E c \in H : Gave(c) /\ \A d \in H : Took(d) => d \in Anc(C, c)) => X \in C[h].tree
  /\ (\E c \in H : Took(c) /\ \A d \in H : Gave(d) => d \in Anc(C, c)) => X \notin C[h].tree
\* There is always something that a merge may give.
Merges == \A u, v \in Users : \E t \in SUBSET {X} : MergeOK(C, head[u], head[v], t)
\* Those with the same history have the same tags, and nobody pushes over what others pushed.
Shared == \A u, v \in Users : head[u] = head[v] => C[head[u]].tree = C[head[v]].tree
Onward == hub \in Anc(C', hub')
Forward == [][Onward]_vars
=============================================================================
