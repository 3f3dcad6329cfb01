---------------------------- MODULE KeyperLife ----------------------------
(***************************************************************************)
(* The life of a keyper process: it synchronises with both chains, decides, *)
(* saves its state together with what it just decided, hands the decisions  *)
(* to the queue file, and the queue is worked off in order.  It may stop at  *)
(* any point and is started again from the two files.  Decisions are        *)
(* numbered 0, 1, 2, ... in the order they are made.                        *)
(*                                                                         *)
(* The files f: f.n decisions reached the state file, the first f.ctr of    *)
(* them are no longer listed there as just decided; the first f.cur of them *)
(* reached the queue file, of which f.pend are still to be done and f.fl     *)
(* are transactions waiting to be mined.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
NoFiles == [n |-> 0, ctr |-> 0, cur |-> 0, pend |-> {}, fl |-> {}]

(* What may be found on disk at any moment: all decisions before the last step are in the queue's
   care, those of the last step are as well or still listed in the state file. *)
FilesOK(f) == /\ 0 <= f.ctr /\ f.ctr <= f.n
              /\ f.cur \in {f.ctr, f.n}
              /\ f.pend \subseteq 0..(f.cur - 1) /\ f.fl \subseteq f.pend
(* How the files may change while time goes on, even across restarts: done is the set of decisions
   that have been delivered, refused for good or mined. *)
Came(f, g) == f.pend \cup f.cur..(g.cur - 1)
MayBecome(f, g, done) ==
  /\ FilesOK(g)
  /\ g.n >= f.n /\ g.ctr >= f.ctr /\ g.cur >= f.cur
  /\ g.pend \subseteq Came(f, g)          \* nothing comes back
  /\ Came(f, g) \ g.pend \subseteq done   \* nothing is lost
  /\ f.fl \ g.fl \subseteq done
(* every decision is done, queued, or will be queued from the state file *)
Kept(f, i, done) == i \in done \/ i \in f.pend \/ (f.cur <= i /\ f.ctr <= i)

(* ---------------------- the steps of one life -------------------------- *)
(* p: what the process holds in memory *)
Born(f) == [up |-> TRUE, at |-> IF f.cur < f.n THEN "saved" ELSE "idle", n |-> f.n, pend |-> f.pend, om |-> -1]
Decided(p, k) == [p EXCEPT !.at = "decided", !.n = @ + k]
SaveState(f, p) == [f EXCEPT !.n = p.n, !.ctr = f.n]
(* the queue takes over what it does not have yet *)
Hand(f, p) == [f EXCEPT !.cur = p.n, !.pend = p.pend \cup f.cur..(p.n - 1)]
Handed(f, p) == [p EXCEPT !.at = "idle", !.pend = @ \cup f.cur..(p.n - 1)]
===========================================================================
