------------------------------- MODULE MCGit -------------------------------
(***************************************************************************)
(* The private index of notmuch git, in which the prefixed tags of the     *)
(* database are kept from one run to the next.  It is brought up to date   *)
(* with what has changed since the revision recorded with it, or is made   *)
(* again if the prefix, the database, or the index itself is not what it   *)
(* was.  Tags change and messages come and go at any time, the database    *)
(* may be replaced, and a run may be killed at any step.                   *)
(*                                                                         *)
(* Each tag belongs to one prefix; the index is a set of messages that     *)
(* have the tag of its prefix.                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Msgs, Prefixes, MaxRev, MaxUuid,
          Variant \* "none", or how it may be got wrong
VARIABLES db,    \* message -> set of tags (of those that are there)
          mod,   \* message -> revision of its last change
          rev, uuid,
          index, \* what the index says
          cache, \* what was recorded with it
          pc, px, at, incr, snap, sdb
vars == <<db, mod, rev, uuid, index, cache, pc, px, at, incr, snap, sdb>>
None == [px |-> "?", uuid |-> 0, rev |-> 0, sum |-> {}]
TypeOK == db \in [DOMAIN db -> SUBSET Prefixes] /\ DOMAIN db \subseteq Msgs /\ index \subseteq Msgs /\ rev \in 0..MaxRev
Init == db = [m \in {} |-> {}] /\ mod = [m \in Msgs |-> 0] /\ rev = 0 /\ uuid = 1 /\ index = {} /\ cache = None
        /\ pc = "idle" /\ px = "?" /\ at = <<0, 0>> /\ incr = FALSE /\ snap = {} /\ sdb = db
Keep == UNCHANGED <<index, cache, pc, px, at, incr, snap, sdb>>
\* -- others
Tag == rev < MaxRev /\ \E m \in DOMAIN db, S \in SUBSET Prefixes : S # db[m] /\ db' = [db EXCEPT ![m] = S] /\ rev' = rev + 1 /\ mod' = [mod EXCEPT ![m] = rev + 1] /\ UNCHANGED uuid /\ Keep
Come == rev < MaxRev /\ \E m \in Msgs \ DOMAIN db, S \in SUBSET Prefixes : db' = [x \in DOMAIN db \cup {m} |-> IF x = m THEN S ELSE db[x]] /\ rev' = rev + 1 /\ mod' = [mod EXCEPT ![m] = rev + 1] /\ UNCHANGED uuid /\ Keep
\* (removing a message leaves the revision alone)
Go == \E m \in DOMAIN db : db' = [x \in DOMAIN db \ {m} |-> db[x]] /\ mod' = [mod EXCEPT ![m] = 0] /\ UNCHANGED <<rev, uuid>> /\ Keep
Replace == /\ uuid < MaxUuid /\ uuid' = uuid + 1
           /\ \E D \in SUBSET Msgs : \E f \in [D -> SUBSET Prefixes] : \E r \in 0..rev :
                db' = f /\ rev' = r /\ mod' = [m \in Msgs |-> IF m \in D THEN r ELSE 0]
           /\ Keep
\* -- a run
Start == pc = "idle" /\ \E p \in Prefixes : px' = p /\ pc' = "read" /\ UNCHANGED <<db, mod, rev, uuid, index, cache, at, incr, snap, sdb>>
Same == cache # None /\ (cache.px = px \/ Variant = "prefix") /\ (cache.sum = index \/ Variant = "checksum")
Read == pc = "read" /\ pc' = "empty" /\ at' = <<uuid, rev>> /\ UNCHANGED <<db, mod, rev, uuid, index, cache, px, incr, snap, sdb>>
Empty == /\ pc = "empty" /\ pc' = "dump"
         /\ incr' = (Same /\ cache.uuid = at[1])
         /\ index' = IF Same /\ (cache.uuid = at[1] \/ Variant = "uuid") THEN index ELSE {}
         /\ UNCHANGED <<db, mod, rev, uuid, cache, px, at, snap, sdb>>
Dump == /\ pc = "dump" /\ pc' = "write"
        /\ snap' = {m \in DOMAIN db : (~incr \/ mod[m] > cache.rev) /\ (px \in db[m] \/ (incr /\ Variant # "tagged"))}
        /\ sdb' = db
        /\ UNCHANGED <<db, mod, rev, uuid, index, cache, px, at, incr>>
Written(S) == (IF (incr /\ Variant # "clear") THEN index \ S ELSE index) \cup {m \in S : px \in sdb[m]}
Write == pc = "write" /\ pc' = "use" /\ index' = Written(snap) /\ UNCHANGED <<db, mod, rev, uuid, cache, px, at, incr, snap, sdb>>
Rest == px' = "?" /\ at' = <<0, 0>> /\ incr' = FALSE /\ snap' = {} /\ sdb' = [m \in {} |-> {}]
Record == pc = "use" /\ pc' = "idle" /\ cache' = [px |-> px, uuid |-> at[1], rev |-> IF Variant = "late" THEN (IF uuid = at[1] THEN rev ELSE at[2]) ELSE at[2], sum |-> index]
          /\ Rest /\ UNCHANGED <<db, mod, rev, uuid, index>>
\* (git writes what it was told before its parent died)
Kill == /\ pc # "idle" /\ pc' = "idle"
        /\ IF pc = "write" THEN \E S \in SUBSET snap : index' = Written(S) ELSE UNCHANGED index
        /\ Rest /\ UNCHANGED <<db, mod, rev, uuid, cache>>
Next == Tag \/ Come \/ Go \/ Replace \/ Start \/ Read \/ Empty \/ Dump \/ Write \/ Record \/ Kill
Spec == Init /\ [][Next]_vars
\* the database was not replaced between the two looks at it
Calm == uuid = at[1]
\* What a run works with are the tags at the time of its dump.
Right == (pc = "use" /\ Calm) => \A m \in DOMAIN sdb : m \in index <=> px \in sdb[m]
\* Only what was not made afresh may know messages that are gone.
Fresh == (pc = "use" /\ ~incr) => index \subseteq DOMAIN sdb
=============================================================================
