----------------------------- MODULE MainChain -----------------------------
(***************************************************************************)
(* The contracts on the main chain as one state machine, the blocks that   *)
(* record its history, and a keyper's view of that history.                *)
(*                                                                         *)
(* Call(q, c) says what a call c does to the contracts' state q: whether   *)
(* it succeeds and the state after it. Batch hashes are modelled by what   *)
(* they commit to: the sequence of transactions hashed.                    *)
(*                                                                         *)
(* Seen(q) is what a keyper's view of state q must hold. The machine also  *)
(* models how a view is brought up to date step by step (Fetch): configs   *)
(* appended or re-read, events since the last block seen, receipts of the  *)
(* half steps passed since.                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Owner == 0
NoAddr == -1      \* the zero address
Empty == <<>>     \* the empty function / sequence
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF Has(f, k) THEN f[k] ELSE d

NoCfg == [sbi |-> 0, sb |-> 0, kp |-> <<>>, t |-> 0, span |-> 0, bsl |-> 0, tsl |-> 0, gas |-> 0, fr |-> NoAddr, ta |-> NoAddr, sel |-> 0, to |-> 0]
NoDep == [amt |-> 0, delay |-> 0, req |-> 0, sl |-> FALSE]
NoBatch == [c |-> <<>>, p |-> <<>>, cl |-> 0]

(* par: heads up, appeal period; n: the number of the open block *)
Start0(par, n) == [par |-> par, n |-> n, cfgs |-> <<NoCfg>>, nx |-> NoCfg, b |-> Empty, half |-> 0, rc |-> Empty, dep |-> Empty, acc |-> Empty,
                   fee |-> 0, bank |-> Empty, voted |-> {}, votes |-> Empty, best |-> Empty, evs |-> <<>>]

----------------------------------------------------------------------------
(* Configs and the calendar of batches. Indices of configs start at 0. *)
Cfg(q, i) == q.cfgs[i + 1]
LastCfg(q) == q.cfgs[Len(q.cfgs)]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the config responsible for a batch *)
CI(q, batch) == MaxOf({i \in 0..(Len(q.cfgs) - 1) : Cfg(q, i).sbi <= batch})
(* the config in force at a block *)
ActiveAt(cfgs, blk) == MaxOf({i \in 0..(Len(cfgs) - 1) : cfgs[i + 1].sb <= blk})
Active(c) == c.span > 0
BatchStart(c, batch) == c.sb + (batch - c.sbi) * c.span
BatchEnd(c, batch) == BatchStart(c, batch) + c.span
BatchTimeout(c, batch) == BatchEnd(c, batch) + c.to
(* transactions can be added to a batch from one span before it starts to close *)
WindowStart(c, batch) == IF batch > c.sbi THEN BatchStart(c, batch) - c.span ELSE c.sb
BatchAt(c, blk) == IF Active(c) THEN c.sbi + (blk - c.sb) \div c.span ELSE c.sbi

KeyperAt(c, from, ki) == ki < Len(c.kp) /\ c.kp[ki + 1] = from
Half(q) == q.half
Cipher(q, batch) == Get(q.b, batch, NoBatch).c
Plain(q, batch) == Get(q.b, batch, NoBatch).p
Dep(q, a) == Get(q.dep, a, NoDep)

----------------------------------------------------------------------------
(* What makes a call succeed *)
ScheduleOK(q) ==
  LET a == LastCfg(q)
      z == q.nx
      up == IF a.span > q.par.headsup THEN a.span ELSE q.par.headsup IN
  /\ z.t <= Len(z.kp)
  /\ z.sb >= q.n + up + 1
  /\ IF Active(a) THEN z.sbi > a.sbi /\ a.sb + a.span * (z.sbi - a.sbi) = z.sb
     ELSE z.sbi = a.sbi
(* unscheduling removes configs from the end as long as they start late enough; the first is never removed *)
RECURSIVE Keep(_, _)
Keep(cs, from) == IF Len(cs) > 1 /\ cs[Len(cs)].sb >= from THEN Keep(SubSeq(cs, 1, Len(cs) - 1), from) ELSE cs

AddOK(q, c) ==
  LET g == Cfg(q, CI(q, c.b)) IN
  /\ Active(g) /\ q.n >= WindowStart(g, c.b) /\ q.n < BatchEnd(g, c.b)
  /\ c.len > 0 /\ c.len <= g.tsl /\ Get(q.b, c.b, NoBatch).cl + c.len <= g.bsl
  /\ c.val >= q.fee
CipherTurn(q, batch) == q.half \div 2 = batch /\ q.half % 2 = 0
(* who sends matters only before the time-out: later the call merely skips the step *)
CipherOK(q, c) ==
  LET g == Cfg(q, CI(q, c.b)) IN
  /\ CipherTurn(q, c.b) /\ Active(g)
  /\ \/ q.n >= BatchTimeout(g, c.b)
     \/ /\ q.n >= BatchEnd(g, c.b)
        /\ KeyperAt(g, c.from, c.ki) /\ ~Dep(q, c.from).sl
        /\ c.h = Cipher(q, c.b)
        /\ c.h = <<>> => c.txs = <<>>
PlainOK(q, c) == q.half \div 2 = c.b /\ q.half % 2 = 1 /\ c.txs = Plain(q, c.b)
SkipOK(q, c) == LET g == Cfg(q, CI(q, c.b)) IN CipherTurn(q, c.b) /\ Active(g) /\ q.n >= BatchTimeout(g, c.b)
SetHalfOK(q, c) ==
  LET g == Cfg(q, CI(q, q.half \div 2))
      z == Cfg(q, CI(q, c.n \div 2)) IN
  c.from = Owner /\ Active(g) /\ q.n >= BatchTimeout(g, q.half \div 2) /\ c.n > q.half /\ Active(z) /\ BatchEnd(z, c.n \div 2) < q.n
AccuseOK(q, c) ==
  /\ c.h % 2 = 0 /\ ~Has(q.acc, c.h)
  /\ KeyperAt(Cfg(q, CI(q, c.h \div 2)), c.from, c.ki)
  /\ Has(q.rc, c.h) /\ q.rc[c.h].eh # <<>>
(* sigs: who really signed what the receipt says; 0 or more of [i |-> index, by |-> signer] *)
AppealOK(q, c) ==
  /\ Has(q.acc, c.h) /\ ~q.acc[c.h].ap
  /\ LET g == Cfg(q, CI(q, c.h \div 2)) IN
     /\ Len(c.sigs) >= g.t
     /\ \A j \in DOMAIN c.sigs : KeyperAt(g, c.sigs[j].by, c.sigs[j].i) /\ (j > 1 => c.sigs[j].i > c.sigs[j - 1].i)
SlashOK(q, c) == Has(q.acc, c.h) /\ ~q.acc[c.h].ap /\ ~q.acc[c.h].sl /\ q.n >= q.acc[c.h].bn + q.par.appeal
DepositOK(q, c) == LET d == Dep(q, c.from) IN c.delay >= d.delay /\ d.req = 0 /\ ~d.sl
RequestOK(q, c) == LET d == Dep(q, c.from) IN d.amt > 0 /\ d.req = 0
WithdrawOK(q, c) == LET d == Dep(q, c.from) IN d.amt > 0 /\ d.req > 0 /\ q.n >= d.req + d.delay
VoteOK(q, c) ==
  LET g == Cfg(q, CI(q, c.b)) IN
  Active(g) /\ KeyperAt(g, c.from, c.ki) /\ <<c.b, c.from>> \notin q.voted
Bank(q, a) == Get(q.bank, a, 0)

OK(q, c) ==
  CASE c.k = "set" -> c.from = Owner
    [] c.k = "addkp" -> c.from = Owner
    [] c.k = "rmkp" -> c.from = Owner
    [] c.k = "schedule" -> c.from = Owner /\ ScheduleOK(q)
    [] c.k = "unschedule" -> c.from = Owner /\ c.n > q.n + q.par.headsup /\ Keep(q.cfgs, c.n) # q.cfgs
    [] c.k = "minfee" -> c.from = Owner
    [] c.k = "add" -> AddOK(q, c)
    [] c.k = "bankout" -> Bank(q, c.from) > 0 /\ c.amt <= Bank(q, c.from)
    [] c.k = "cipher" -> CipherOK(q, c)
    [] c.k = "plain" -> PlainOK(q, c)
    [] c.k = "skip" -> SkipOK(q, c)
    [] c.k = "skipmany" -> TRUE
    [] c.k = "sethalf" -> SetHalfOK(q, c)
    [] c.k = "accuse" -> AccuseOK(q, c)
    [] c.k = "appeal" -> AppealOK(q, c)
    [] c.k = "slash" -> SlashOK(q, c)
    [] c.k = "deposit" -> DepositOK(q, c)
    [] c.k = "request" -> RequestOK(q, c)
    [] c.k = "withdraw" -> WithdrawOK(q, c)
    [] c.k = "vote" -> VoteOK(q, c)
    [] c.k = "setcfg" -> TRUE

----------------------------------------------------------------------------
(* What a successful call does; evs lists the events of the open block *)
Ev(q, e) == [q EXCEPT !.evs = Append(@, e)]
SetHalf(q, h) == [q EXCEPT !.half = h]
SetDep(q, a, d) == Ev([q EXCEPT !.dep = Put(@, a, d)], [t |-> "dep", a |-> a, d |-> d])

(* skips at most max batches whose transactions are missing or timed out *)
RECURSIVE SkipMany(_, _)
SkipMany(q, max) ==
  IF max = 0 THEN q
  ELSE LET batch == q.half \div 2
           g == Cfg(q, CI(q, batch))
           stuck == q.half % 2 = 0 /\ (~Active(g) \/ q.n < BatchEnd(g, batch) \/ (q.n < BatchTimeout(g, batch) /\ Cipher(q, batch) # <<>>))
           r == IF q.half % 2 = 0 THEN SetHalf(q, q.half + 1) ELSE q IN
       IF stuck THEN q
       ELSE IF Plain(q, batch) # <<>> THEN r
       ELSE SkipMany(SetHalf(r, r.half + 1), max - 1)

CountVote(q, c) ==
  LET k == <<c.b, c.key>>
      n == Get(q.votes, k, 0) + 1
      best == Get(q.best, c.b, [key |-> <<>>, n |-> 0]) IN
  [q EXCEPT !.voted = @ \cup {<<c.b, c.from>>}, !.votes = Put(@, k, n), !.best = IF n > best.n THEN Put(@, c.b, [key |-> c.key, n |-> n]) ELSE Put(@, c.b, best)]

Do(q, c) ==
  CASE c.k = "set" -> [q EXCEPT !.nx = [@ EXCEPT ![c.f] = c.v]]
    [] c.k = "addkp" -> [q EXCEPT !.nx.kp = @ \o c.kp]
    [] c.k = "rmkp" -> [q EXCEPT !.nx.kp = SubSeq(@, 1, IF c.n <= Len(@) THEN Len(@) - c.n ELSE 0)]
    [] c.k = "schedule" -> Ev([q EXCEPT !.cfgs = Append(@, q.nx), !.nx = NoCfg], [t |-> "sched"])
    [] c.k = "unschedule" -> Ev([q EXCEPT !.cfgs = Keep(@, c.n)], [t |-> "unsched"])
    [] c.k = "minfee" -> [q EXCEPT !.fee = c.n]
    [] c.k = "add" -> LET o == Get(q.b, c.b, NoBatch)
                          g == Cfg(q, CI(q, c.b))
                          r == IF c.t = 0 THEN [o EXCEPT !.c = Append(@, c.id), !.cl = @ + c.len] ELSE [o EXCEPT !.p = Append(@, c.id), !.cl = @ + c.len] IN
                      Ev([q EXCEPT !.b = Put(@, c.b, r), !.bank = IF c.val > 0 /\ g.fr # NoAddr THEN Put(@, g.fr, Bank(q, g.fr) + c.val) ELSE @],
                         [t |-> "tx", b |-> c.b, ty |-> c.t, id |-> c.id, h |-> IF c.t = 0 THEN r.c ELSE r.p])
    [] c.k = "bankout" -> [q EXCEPT !.bank = Put(@, c.from, Bank(q, c.from) - c.amt)]
    [] c.k = "cipher" -> IF q.n >= BatchTimeout(Cfg(q, CI(q, c.b)), c.b) THEN SetHalf(q, q.half + 1)
                         ELSE SetHalf([q EXCEPT !.rc = Put(@, q.half, [ex |-> c.from, eh |-> c.h, bh |-> c.txs])], q.half + 1)
    [] c.k = "plain" -> SetHalf(q, q.half + 1)
    [] c.k = "skip" -> SetHalf(q, q.half + 1)
    [] c.k = "skipmany" -> SkipMany(q, c.n)
    [] c.k = "sethalf" -> SetHalf(q, c.n)
    [] c.k = "accuse" -> Ev([q EXCEPT !.acc = Put(@, c.h, [ex |-> q.rc[c.h].ex, by |-> c.from, ap |-> FALSE, sl |-> FALSE, bn |-> q.n])],
                            [t |-> "accused", h |-> c.h, ex |-> q.rc[c.h].ex, by |-> c.from, bn |-> q.n])
    [] c.k = "appeal" -> Ev([q EXCEPT !.acc[c.h].ap = TRUE], [t |-> "appealed", h |-> c.h])
    [] c.k = "slash" -> SetDep([q EXCEPT !.acc[c.h].sl = TRUE], q.acc[c.h].ex, [NoDep EXCEPT !.sl = TRUE])
    [] c.k = "deposit" -> SetDep(q, c.from, [NoDep EXCEPT !.amt = Dep(q, c.from).amt + c.amt, !.delay = c.delay])
    [] c.k = "request" -> SetDep(q, c.from, [Dep(q, c.from) EXCEPT !.req = q.n])
    [] c.k = "withdraw" -> SetDep(q, c.from, NoDep)
    [] c.k = "vote" -> CountVote(q, c)
    [] c.k = "setcfg" -> [q EXCEPT !.nx = c.cfg]
Call(q, c) == IF OK(q, c) THEN Do(q, c) ELSE q
Mine(q) == [q EXCEPT !.n = @ + 1, !.evs = <<>>]

----------------------------------------------------------------------------
(* A keyper's view. Keypers listed twice count once. *)
Dedup(s) == FoldLeft(LAMBDA a, x : IF x \in ToSet(a) THEN a ELSE Append(a, x), <<>>, s)
CfgSeen(c) == [c EXCEPT !.kp = Dedup(@)]
Seen(q) == [cfgs |-> [i \in DOMAIN q.cfgs |-> CfgSeen(q.cfgs[i])],
            b |-> [i \in DOMAIN q.b |-> [c |-> q.b[i].c, ch |-> q.b[i].c, p |-> q.b[i].p, ph |-> q.b[i].p]],
            half |-> q.half, rc |-> q.rc, dep |-> q.dep,
            acc |-> [h \in DOMAIN q.acc |-> [ex |-> q.acc[h].ex, by |-> q.acc[h].by, ap |-> q.acc[h].ap, bn |-> q.acc[h].bn]]]

View0 == [cur |-> 0, ns |-> TRUE, cfgs |-> <<>>, b |-> Empty, half |-> 0, rc |-> Empty, dep |-> Empty, acc |-> Empty]
Until(head, follow) == IF head >= follow THEN head - follow ELSE 0
(* what is seen of a block's events *)
SeeEvent(v, e) ==
  CASE e.t = "tx" -> LET o == Get(v.b, e.b, [c |-> <<>>, ch |-> <<>>, p |-> <<>>, ph |-> <<>>]) IN
         [v EXCEPT !.b = Put(@, e.b, IF e.ty = 0 THEN [o EXCEPT !.c = Append(@, e.id), !.ch = e.h] ELSE [o EXCEPT !.p = Append(@, e.id), !.ph = e.h])]
    [] e.t = "dep" -> [v EXCEPT !.dep = Put(@, e.a, e.d)]
    [] e.t = "accused" -> [v EXCEPT !.acc = Put(@, e.h, [ex |-> e.ex, by |-> e.by, ap |-> FALSE, bn |-> e.bn])]
    [] e.t = "appealed" -> [v EXCEPT !.acc = Put(@, e.h, [Get(v.acc, e.h, [ex |-> NoAddr, by |-> NoAddr, ap |-> FALSE, bn |-> 0]) EXCEPT !.ap = TRUE])]
    [] OTHER -> v
(* hist[i + 1] is the state of the contracts after block i *)
Fetch(v, hist, until) ==
  LET q == hist[until + 1]
      evs == FoldLeft(LAMBDA a, i : a \o hist[i + 1].evs, <<>>, [j \in 1..(until - v.cur) |-> v.cur + j])
      gone == \E i \in DOMAIN evs : evs[i].t = "unsched"
      old == IF gone THEN <<>> ELSE v.cfgs
      w == FoldLeft(SeeEvent, v, evs)
      steps == {h \in v.half..(q.half - 1) : h % 2 = 0 /\ Has(q.rc, h)} IN
  [w EXCEPT !.cur = until, !.half = q.half,
            !.cfgs = old \o [i \in 1..(Len(q.cfgs) - Len(old)) |-> CfgSeen(q.cfgs[Len(old) + i])],
            !.rc = [h \in (DOMAIN v.rc) \cup steps |-> IF h \in DOMAIN v.rc THEN v.rc[h] ELSE q.rc[h]]]
Sync(v, hist, head, follow, synced) ==
  LET until == Until(head, follow) IN
  IF head = v.cur \/ until < v.cur THEN v ELSE [Fetch(v, hist, until) EXCEPT !.ns = synced]
(* before the first synchronisation there is nothing to compare *)
Exact(v, hist) == v.cfgs # <<>> => LET z == Seen(hist[v.cur + 1]) IN \A f \in DOMAIN z : v[f] = z[f]
=============================================================================
