----------------------------- MODULE KeyperView -----------------------------
(***************************************************************************)
(* A keyper's view of the keyper chain (keyper/observe.Shutter).           *)
(*                                                                         *)
(* `chain' is the sequence of blocks; a block is the sequence of events of *)
(* its accepted transactions.  `view' is what the keyper reconstructed up  *)
(* to block view.cur.  Syncing appends, filtering forgets processed data,  *)
(* node errors change nothing, restarting changes nothing.  Every event of *)
(* the view carries the height of its block.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES chain, view
kvars == <<chain, view>>

EmptyView == [cur |-> 0, sh |-> 0, bi |-> 0, keys |-> [x \in {} |-> ""], cfgs |-> <<>>,
              eons |-> <<>>, batches |-> [x \in {} |-> <<>>]]
PutV(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(ev, h) == [ev |-> ev, h |-> h]
Max2(a, b) == IF a > b THEN a ELSE b

EonIdx(v, n) == {i \in DOMAIN v.eons : v.eons[i].eon = n}
AddTo(v, n, x) == IF EonIdx(v, n) = {} THEN v
                  ELSE LET i == CHOOSE i \in EonIdx(v, n) : TRUE
                       IN  [v EXCEPT !.eons[i].msgs = Append(@, x)]
(* one event *)
ApplyEv(v, e, h) ==
  CASE e.t = "ci"  -> [v EXCEPT !.keys = PutV(@, e.snd, e.ek)]
    [] e.t = "bc"  -> [v EXCEPT !.cfgs = Append(@, At(e, h))]
    [] e.t = "ds"  -> [v EXCEPT !.batches = PutV(@, e.b, Append(IF e.b \in DOMAIN v.batches THEN v.batches[e.b] ELSE <<>>, At(e, h)))]
    [] e.t = "eon" -> [v EXCEPT !.eons = Append(@, [eon |-> e.eon, start |-> e.start, h |-> h, msgs |-> <<>>])]
    [] e.t \in {"pe", "pc", "ac", "ap", "sh"} -> AddTo(v, e.eon, At(e, h))
    [] OTHER -> v

ApplyBlock(v, evs, h) == FoldLeft(LAMBDA a, e : ApplyEv(a, e, h), v, evs)
ApplyUpTo(v, h) == IF v.cur >= h THEN v
                   ELSE FoldLeft(LAMBDA a, n : [ApplyBlock(a, chain[n], n) EXCEPT !.cur = n],
                                 v, [i \in 1..(h - v.cur) |-> v.cur + i])

Needed(v, h) == h >= v.sh
Keep(v, s) == SelectSeq(s, LAMBDA x : Needed(v, x.h))
Forget(v) == [v EXCEPT !.eons = [i \in DOMAIN v.eons |-> [v.eons[i] EXCEPT !.msgs = Keep(v, @)]],
                       !.batches = [b \in {x \in DOMAIN v.batches : x >= v.bi} |-> v.batches[b]]]

Extend(evs) == chain' = Append(chain, evs) /\ UNCHANGED view
Sync(h) == view' = ApplyUpTo(view, h) /\ UNCHANGED chain      \* h below view.cur: nothing happens
Fail == UNCHANGED kvars
Filter(sh, bi) == /\ view' = Forget([view EXCEPT !.sh = Max2(@, sh), !.bi = Max2(@, bi)])
                  /\ UNCHANGED chain
Restart == UNCHANGED kvars

(* The view as a function of the chain alone: everything up to cur, less what may be forgotten *)
RECURSIVE Full(_, _)
Full(v, h) == IF h = 0 THEN v ELSE ApplyBlock(Full(v, h - 1), chain[h], h)
SameNeeded(v, f) ==
  /\ v.keys = f.keys /\ v.cfgs = f.cfgs
  /\ Len(v.eons) = Len(f.eons)
  /\ \A i \in DOMAIN v.eons : /\ v.eons[i].eon = f.eons[i].eon /\ v.eons[i].h = f.eons[i].h
                              /\ Keep(v, v.eons[i].msgs) = Keep(v, f.eons[i].msgs)
  /\ \A b \in DOMAIN v.batches \cup DOMAIN f.batches : b >= v.bi =>
       /\ b \in DOMAIN v.batches /\ b \in DOMAIN f.batches /\ v.batches[b] = f.batches[b]
FunctionOfTheChain == SameNeeded(view, Full(EmptyView, view.cur))
=============================================================================
