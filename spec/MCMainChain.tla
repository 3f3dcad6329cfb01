---------------------------- MODULE MCMainChain ----------------------------
EXTENDS MainChain, Json
CONSTANTS WORLD, FOLLOW, BLOCKS, CALLS, SYNCS, EMIT
VARIABLES q, hist, v, cnt, ops
mv == <<q, hist, v, cnt, ops>>
C(sbi, sb, span) == [NoCfg EXCEPT !.sbi = sbi, !.sb = sb, !.span = span, !.kp = <<1, 2, 1>>, !.t = 1, !.bsl = 3, !.tsl = 2, !.to = 1, !.fr = 3]
Par == [headsup |-> 1, appeal |-> 1]
A0 == C(0, 2, 1)
SetCfg(c) == [k |-> "setcfg", from |-> 0, cfg |-> c]
Sched(f) == [k |-> "schedule", from |-> f]
Exec1 == [k |-> "cipher", from |-> 1, b |-> 0, h |-> <<1>>, txs |-> <<7>>, ki |-> 0]
Setup == IF WORLD = "cfg" THEN <<>> ELSE <<SetCfg(A0), Sched(0)>>
Calls ==
  CASE WORLD = "cfg" -> <<SetCfg(C(0, 3, 1)), SetCfg(C(1, 4, 1)), SetCfg([C(3, 6, 2) EXCEPT !.kp = <<2>>]), SetCfg(C(2, 5, 0)), SetCfg(C(2, 6, 1)), SetCfg(C(0, 5, 1)), Sched(0), Sched(1),
                          [k |-> "unschedule", from |-> 0, n |-> 3], [k |-> "unschedule", from |-> 0, n |-> 5]>>
    [] WORLD = "exec" -> <<[k |-> "add", from |-> 3, b |-> 0, t |-> 0, id |-> 1, len |-> 2, val |-> 0], [k |-> "add", from |-> 3, b |-> 1, t |-> 0, id |-> 2, len |-> 1, val |-> 1],
                           [k |-> "add", from |-> 3, b |-> 0, t |-> 1, id |-> 3, len |-> 1, val |-> 0],
                           Exec1, [Exec1 EXCEPT !.h = <<>>, !.txs = <<>>], [Exec1 EXCEPT !.from = 2, !.ki = 1, !.b = 1, !.h = <<2>>, !.txs = <<>>],
                           [k |-> "plain", from |-> 3, b |-> 0, txs |-> <<>>], [k |-> "plain", from |-> 3, b |-> 0, txs |-> <<3>>], [k |-> "skip", from |-> 3, b |-> 0],
                           [k |-> "skipmany", from |-> 3, n |-> 2], [k |-> "sethalf", from |-> 0, n |-> 2], [k |-> "sethalf", from |-> 0, n |-> 3]>>
    [] WORLD = "slash" -> <<[k |-> "deposit", from |-> 1, amt |-> 5, delay |-> 1], [k |-> "request", from |-> 1], [k |-> "withdraw", from |-> 1],
                            [k |-> "accuse", from |-> 2, h |-> 0, ki |-> 1], [k |-> "accuse", from |-> 1, h |-> 0, ki |-> 0], [k |-> "appeal", from |-> 3, h |-> 0, sigs |-> <<[i |-> 1, by |-> 2]>>],
                            [k |-> "appeal", from |-> 3, h |-> 0, sigs |-> <<>>], [k |-> "slash", from |-> 3, h |-> 0], Exec1>>
(* in the slash world the first batch has a transaction *)
Prefix == IF WORLD = "slash" THEN <<[k |-> "add", from |-> 3, b |-> 0, t |-> 0, id |-> 1, len |-> 2, val |-> 0]>> ELSE <<>>
Ops == Calls \o <<[k |-> "mine"], [k |-> "sync", lag |-> 0], [k |-> "sync", lag |-> 1], [k |-> "reorg", d |-> 1]>>
Q0 == [FoldLeft(LAMBDA x, c : Call(x, c), Start0(Par, 0), Setup) EXCEPT !.n = 1, !.evs = <<>>]
(* blocks 1 and 2 of the slash world: the transaction is added, then its batch closes *)
Q2 == IF WORLD = "slash" THEN LET a == Mine(Q0) IN Call(a, Prefix[1]) ELSE Q0
H2 == IF WORLD = "slash" THEN <<Q0, Q0, Q2>> ELSE <<Q0>>
Init == q = (IF WORLD = "slash" THEN Mine(Q2) ELSE Q0) /\ hist = H2 /\ v = View0 /\ cnt = [c |-> 0, s |-> 0, r |-> 0] /\ ops = <<>>
Next == \E i \in DOMAIN Ops :
  LET o == Ops[i] IN
  /\ ops' = Append(ops, i)
  /\ CASE o.k = "mine" -> q.n < BLOCKS /\ q' = Mine(q) /\ hist' = Append(hist, q) /\ UNCHANGED <<v, cnt>>
       [] o.k = "reorg" -> LET m == Len(hist) - o.d IN
            cnt.r = 0 /\ m >= 1 /\ m - 1 >= v.cur /\ FOLLOW >= o.d /\ hist' = SubSeq(hist, 1, m) /\ q' = Mine(hist[m]) /\ cnt' = [cnt EXCEPT !.r = 1] /\ UNCHANGED v
       [] o.k = "sync" -> LET h == Len(hist) - 1 - o.lag IN
            h >= 0 /\ cnt.s < SYNCS /\ v' = Sync(v, hist, h, FOLLOW, TRUE) /\ cnt' = [cnt EXCEPT !.s = IF v' = v THEN @ ELSE @ + 1] /\ UNCHANGED <<q, hist>>
       [] OTHER -> cnt.c < CALLS /\ q' = Call(q, o) /\ cnt' = [cnt EXCEPT !.c = IF OK(q, o) THEN @ + 1 ELSE @] /\ UNCHANGED <<hist, v>>
MCSpec == Init /\ [][Next]_mv
View == <<q, hist, v, cnt>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([par |-> Par, follow |-> FOLLOW, setup |-> Setup, prefix |-> Prefix]))

(* M01: the view, however it came about, is what the contracts held at its block *)
ViewExact == Exact(v, hist)
NeverBack == [][v'.cur >= v.cur]_mv
(* what a view says about the past stays: configs in force or near, executed steps, accusations *)
PastStays == [][/\ \A i \in DOMAIN v.cfgs : v.cfgs[i].sb <= v.cur + Par.headsup => i \in DOMAIN v'.cfgs /\ v'.cfgs[i] = v.cfgs[i]
                /\ v'.half >= v.half /\ \A h \in DOMAIN v.rc : v'.rc[h] = v.rc[h]
                /\ \A b \in DOMAIN v.b : IsPrefix(v.b[b].c, v'.b[b].c) /\ IsPrefix(v.b[b].p, v'.b[b].p)
                /\ \A h \in DOMAIN v.acc : v.acc[h].ap => v'.acc[h].ap]_mv

(* M02: the calendar partitions the blocks *)
Blks == 0..(BLOCKS + 3)
First == CHOOSE i \in 1..Len(q.cfgs) : Active(q.cfgs[i]) /\ \A j \in 1..(i - 1) : ~Active(q.cfgs[j])
Calendar == \A i \in 1..(Len(q.cfgs) - 1) :
  LET a == q.cfgs[i]
      z == q.cfgs[i + 1] IN
  /\ a.sb <= z.sb /\ a.sbi <= z.sbi
  /\ Active(a) => z.sb = BatchEnd(a, z.sbi - 1) /\ a.sbi < z.sbi
Partition == \A x \in Blks :
  LET i == ActiveAt(q.cfgs, x)
      c == Cfg(q, i)
      n == BatchAt(c, x) IN
  Active(c) => /\ BatchStart(c, n) <= x /\ x < BatchEnd(c, n)
               /\ CI(q, n) = i
               /\ \A m \in 0..(BLOCKS + 3) : LET g == Cfg(q, CI(q, m)) IN Active(g) /\ m # n => ~(BatchStart(g, m) <= x /\ x < BatchEnd(g, m))
               /\ (x > c.sb => BatchAt(c, x - 1) \in {n - 1, n})
               /\ (x = c.sb /\ i > 0 /\ Active(Cfg(q, i - 1)) => BatchAt(Cfg(q, i - 1), x - 1) = n - 1)

(* M03: what the contracts guarantee *)
ExecutedOnce == \A h \in DOMAIN q.rc : h % 2 = 0 /\ h < q.half
ExecutedRight == \A h \in DOMAIN q.rc : q.rc[h].eh = Cipher(q, h \div 2) /\ (q.rc[h].eh = <<>> => q.rc[h].bh = <<>>)
ClosedOnly == q.half > 0 => LET g == Cfg(q, CI(q, (q.half - 1) \div 2)) IN Active(g) /\ BatchEnd(g, (q.half - 1) \div 2) <= q.n
Limits == \A b \in DOMAIN q.b : Get(q.b, b, NoBatch).cl <= Cfg(q, CI(q, b)).bsl
AccusedExecuted == \A h \in DOMAIN q.acc : Has(q.rc, h) /\ q.rc[h].ex = q.acc[h].ex
StepsGrow == [][q'.half >= q.half \/ Len(hist') < Len(hist)]_mv
(* a batch does not change any more once it may be executed *)
ClosedStay == [][Len(hist') >= Len(hist) => \A b \in DOMAIN q.b : LET g == Cfg(q, CI(q, b)) IN q.n >= BatchEnd(g, b) => q'.b[b] = q.b[b] /\ CI(q', b) = CI(q, b)]_mv
(* nobody is slashed who was not accused, and only after the appeal period *)
SlashedRight == \A a \in DOMAIN q.dep : q.dep[a].sl => \E h \in DOMAIN q.acc : q.acc[h].ex = a /\ q.acc[h].sl /\ q.n >= q.acc[h].bn + Par.appeal

NeverTwoConfigs == Len(v.cfgs) < 3 \* witnesses
NeverShrinks == [][Len(v'.cfgs) >= Len(v.cfgs)]_mv
NeverReceipt == DOMAIN v.rc = {}
NeverSkipped == ~(v.half >= 2 /\ ~Has(v.rc, 0))
NeverSlashed == \A a \in DOMAIN v.dep : ~v.dep[a].sl
NeverAppealed == \A h \in DOMAIN v.acc : ~v.acc[h].ap
=============================================================================
