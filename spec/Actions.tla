------------------------------ MODULE Actions ------------------------------
(* The keyper's queue of actions: decided by the main loop together with the state file, put into *)
(* the queue file, sent by one worker for keyper chain messages and one for main chain transactions, *)
(* tracked until mined. The keyper may crash or be stopped at any point and is started again from *)
(* the two files. Actions are numbered 0, 1, 2, ... in the order they are decided. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
None == -1
Start0 == [up |-> TRUE,
           acts |-> <<>>,                 \* every action whose decision reached the state file
           sn |-> 0,                      \* how many of them the state file has as just decided
           cur |-> 0,                     \* how many of them reached the queue file
           pend |-> {},                   \* queue file: actions still to be done
           fl |-> {},                     \* queue file: of these, transactions submitted and not yet mined
           om |-> None, ot |-> None,      \* message being delivered / transaction being submitted
           w |-> [nx |-> 0, acc |-> {}, app |-> {}], \* executed half steps, accused ones, successfully appealed ones
           final |-> {}]                  \* actions delivered, mined, failed for good or expired
Act(s, id) == s.acts[id + 1]
IsMsg(s, id) == Act(s, id).k = "msg"
Msgs(s) == {i \in s.pend : IsMsg(s, i)}
Txs(s) == {i \in s.pend : ~IsMsg(s, i)} \ s.fl
Expired(s, id) ==
  LET a == Act(s, id) IN
  CASE a.k \in {"cipher", "skip", "plain"} -> s.w.nx > a.hs
    [] a.k = "accuse" -> a.hs \in s.w.acc
    [] a.k = "appeal" -> a.hs \notin s.w.acc \/ a.hs \in s.w.app
    [] OTHER -> FALSE
Wanted(s) == {i \in Txs(s) : ~Expired(s, i)}

(* the main loop: decide and save, then hand the actions to the queue *)
CanDecide(s) == s.up /\ s.cur = Len(s.acts)
Decide(s, as) == [s EXCEPT !.acts = @ \o as, !.sn = Len(as)]
Run(s) == [s EXCEPT !.cur = Len(s.acts), !.pend = @ \cup (s.cur..(Len(s.acts) - 1))]

(* delivering messages: one at a time, in order *)
CanSend(s, id) == s.up /\ s.om = None /\ id \in Msgs(s) /\ id = Min(Msgs(s))
Send(s, id) == [s EXCEPT !.om = id]
Done(s, id) == [s EXCEPT !.pend = @ \ {id}, !.fl = @ \ {id}, !.final = @ \cup {id}]
Sent(s, res) == LET t == [s EXCEPT !.om = None] IN IF res \in {"ok", "final"} THEN Done(t, s.om) ELSE t

(* submitting transactions: one at a time, in order, expired ones are left out *)
CanSubmit(s, id) == s.up /\ s.ot = None /\ id \in Wanted(s) /\ id = Min(Wanted(s))
Submit(s, id) == [s EXCEPT !.ot = id]
Submitted(s, res) ==
  LET t == [s EXCEPT !.ot = None] IN
  CASE res = "ok" -> [t EXCEPT !.fl = @ \cup {s.ot}]
    [] res = "final" -> Done(t, s.ot)
    [] OTHER -> t
Mined(s, id) == Done(s, id)
World(s, w) == [s EXCEPT !.w = w]
(* an expired transaction may leave the queue at any time *)
MayDrop(s) == {i \in Txs(s) : Expired(s, i) /\ i # s.ot}
Drop(s, ids) == [s EXCEPT !.pend = @ \ ids, !.final = @ \cup ids]

(* a crash or a stop: requests are cut off, whatever they achieved *)
Down(s) == [s EXCEPT !.up = FALSE, !.om = None, !.ot = None]
Up(s) == [s EXCEPT !.up = TRUE]
=============================================================================
