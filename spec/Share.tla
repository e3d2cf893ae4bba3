------------------------------- MODULE Share -------------------------------
(***************************************************************************)
(* Several processes with one database.                                    *)
(*                                                                         *)
(* Each process has a handle (Store.tla).  What is committed is shared:    *)
(* W.pub.  One handle at a time writes; opening for writing waits for it.  *)
(* A reader keeps the state it has opened.  The storage keeps that state   *)
(* for it through one commit; a reader that is overtaken by more may get   *)
(* an error, or be moved on to what was committed meanwhile, but never     *)
(* anything else.                                                          *)
(***************************************************************************)
EXTENDS Store

World0(P, pub, auto) == [pub |-> pub, hs |-> [p \in P |-> [Closed(pub, FALSE) EXCEPT !.auto = auto]],
                         seen |-> [p \in P |-> {}], late |-> [p \in P |-> 0], conf |-> [p \in P |-> Empty]]
Mine(W, p) == [W.hs[p] EXCEPT !.pub = W.pub]
Writers(W) == {p \in DOMAIN W.hs : W.hs[p].mode = "rw"}
MayWrite(W, p) == Writers(W) \subseteq {p}
MustWait(W, p) == ~MayWrite(W, p)
Overtaken(W, p) == W.hs[p].mode = "ro" /\ W.late[p] >= 2

\* Process p did something, which left its handle as h.  opened: h is a new view; ends: p gave up its handle.
Did(W, p, h, opened, ends) ==
  LET wrote == W.hs[p].mode = "rw"
      commit == h.pub # W.pub \/ (wrote /\ ends)
      Late(q) == IF q = p THEN IF opened THEN 0 ELSE W.late[q]
                 ELSE IF W.hs[q].mode # "ro" THEN 0
                 ELSE IF wrote /\ (h.auto > 0 \/ W.late[q] >= 1) THEN 2
                 ELSE IF commit THEN W.late[q] + 1 ELSE W.late[q]
      Seen(q) == IF q = p THEN IF opened THEN {h.db} ELSE W.seen[q]
                 ELSE IF W.hs[q].mode # "ro" THEN {}
                 ELSE W.seen[q] \cup {h.pub}
  IN [pub |-> h.pub, conf |-> W.conf, hs |-> [W.hs EXCEPT ![p] = h], late |-> [q \in DOMAIN W.hs |-> Late(q)], seen |-> [q \in DOMAIN W.hs |-> Seen(q)]]

\* The configuration a handle answers with is that of the time it was opened (documented), and its own changes since.
ConfAt(W, p, c) == [W EXCEPT !.conf[p] = c]

\* the states an answer to process p may come from
Views(W, p) == IF Overtaken(W, p) THEN W.seen[p] ELSE {W.hs[p].db}
=============================================================================
