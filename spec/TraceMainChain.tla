--------------------------- MODULE TraceMainChain ---------------------------
(* Validates calls to the real contracts, and what the real code reads from them *)
EXTENDS MainChain, Json, IOUtils
VARIABLES s, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* a configuration as it is written in traces: no missing fields, so the records compare *)
BSet(f) == {[b |-> i, c |-> f[i].c, ch |-> f[i].ch, p |-> f[i].p, ph |-> f[i].ph] : i \in DOMAIN f}
RSet(f) == {[h |-> i, ex |-> f[i].ex, eh |-> f[i].eh, bh |-> f[i].bh] : i \in DOMAIN f}
DSet(f) == {[a |-> i, amt |-> f[i].amt, delay |-> f[i].delay, req |-> f[i].req, sl |-> f[i].sl] : i \in DOMAIN f}
ASet(f) == {[h |-> i, ex |-> f[i].ex, by |-> f[i].by, ap |-> f[i].ap, bn |-> f[i].bn] : i \in DOMAIN f}
Same(S, list) == S = ToSet(list) /\ Cardinality(S) = Len(list)
ViewWhy(v, e, nss) ==
  (IF e.cur = v.cur THEN {} ELSE {"view: block"}) \cup (IF e.cfgs = v.cfgs THEN {} ELSE {"view: configs"}) \cup
  (IF Same(BSet(v.b), e.b) THEN {} ELSE {"view: batches"}) \cup (IF e.half = v.half THEN {} ELSE {"view: half steps"}) \cup
  (IF Same(RSet(v.rc), e.rc) THEN {} ELSE {"view: receipts"}) \cup (IF Same(DSet(v.dep), e.dep) THEN {} ELSE {"view: deposits"}) \cup
  (IF Same(ASet(v.acc), e.acc) THEN {} ELSE {"view: accusations"}) \cup (IF e.ns \in nss THEN {} ELSE {"view: node in sync"})
(* the view to be had from a node with the given head *)
Expected(q, e) ==
  LET until == Until(e.h, q.follow) IN
  IF e.h = q.v.cur \/ until < q.v.cur THEN q.v
  ELSE LET z == Seen(q.hist[until + 1]) IN
       [cur |-> until, ns |-> ~e.syncing, cfgs |-> z.cfgs, b |-> z.b, half |-> z.half, rc |-> z.rc, dep |-> z.dep, acc |-> z.acc]
NoSync(q, e) == e.h = q.v.cur \/ Until(e.h, q.follow) <= q.v.cur
Old(e) == IF e.oldsame THEN {} ELSE {"view: earlier view changed"}
(* nothing is known of a chain before the first synchronisation, nor need it be while there is nothing to see *)
SyncWhy(q, e) ==
  Old(e) \cup
  CASE e.res = "err" -> IF e.fault THEN {} ELSE {"view: synchronisation fails"}
    [] e.res = "ok" -> IF e.fault THEN {"view: made in spite of an error"}
                       ELSE LET x == Expected(q, e) IN ViewWhy(x, e.view, IF NoSync(q, e) THEN {x.ns, q.v.ns, ~e.syncing} ELSE {x.ns})
    [] OTHER -> {"view: " \o e.res}
After(q, e) == IF e.res = "ok" /\ ~e.fault THEN [q EXCEPT !.v = [Expected(q, e) EXCEPT !.ns = e.view.ns]] ELSE q

Cal(c, i) ==
  CASE c.f = "active" -> c.r = ActiveAt(i, c.x)
    [] c.f = "cidx" -> c.r = CI([cfgs |-> i], c.b)
    [] c.f = "cfgof" -> LET z == CI([cfgs |-> i], c.b) IN c.r = IF Active(i[z + 1]) THEN z ELSE -1
    [] c.f = "start" -> c.r = LET g == i[c.i + 1] IN IF c.b < g.sbi THEN -1 ELSE BatchStart(g, c.b)
    [] c.f = "end" -> c.r = LET g == i[c.i + 1] IN IF c.b < g.sbi THEN -1 ELSE BatchEnd(g, c.b)
    [] c.f = "batch" -> c.r = LET g == i[c.i + 1] IN IF c.x < g.sb THEN -1 ELSE BatchAt(g, c.x)
    [] c.f = "bounds" -> c.r = LET g == i[c.i + 1] IN IF c.b < g.sbi \/ ~Active(g) THEN <<>> ELSE <<WindowStart(g, c.b), BatchEnd(g, c.b), BatchTimeout(g, c.b)>>
    [] c.f = "next" -> c.r = LET g == i[ActiveAt(i, c.x) + 1] IN IF Active(g) THEN BatchAt(g, c.x) + 1 ELSE g.sbi
    [] c.f = "future" -> c.r = SubSeq(i, ActiveAt(i, c.x) + 1, Len(i))
    [] c.f = "isactive" -> c.r = Active(i[c.i + 1])
    [] c.f = "keyper" -> c.r = LET j == {n \in DOMAIN i[c.i + 1].kp : i[c.i + 1].kp[n] = c.a} IN IF j = {} THEN -1 ELSE (CHOOSE n \in j : \A m \in j : n <= m) - 1
    [] c.f = "anykeyper" -> c.r = (\E n \in (ActiveAt(i, c.x) + 1)..Len(i) : c.a \in ToSet(i[n].kp))
CalWhy(list, cfgs) == {"calendar: " \o list[j].f : j \in {n \in DOMAIN list : ~Cal(list[n], cfgs)}}
Seen0(cs) == [i \in DOMAIN cs |-> CfgSeen(cs[i])]

Peek(q, e) ==
  (IF e.nx = q.nx THEN {} ELSE {"contract: next config"}) \cup (IF e.fee = q.fee THEN {} ELSE {"contract: minimum fee"}) \cup
  (IF \A i \in DOMAIN e.bank : e.bank[i] = Bank(q, i - 1) THEN {} ELSE {"contract: fees"}) \cup
  (IF \A i \in DOMAIN e.best : LET z == Get(q.best, e.best[i].b, [key |-> <<>>, n |-> 0]) IN e.best[i].key = z.key /\ e.best[i].n = z.n THEN {} ELSE {"contract: eon key votes"})
JsonWhy(e) ==
  IF e.c.t >= 1 /\ e.c.t <= Len(e.c.kp) THEN (IF e.ok /\ e.back = e.c THEN {} ELSE {"config: JSON"})
  ELSE (IF e.ok THEN {"config: JSON"} ELSE {})
Why(q, e) ==
  CASE e.op = "call" -> IF e.ok = OK(q.q, e) THEN {} ELSE IF e.k = "setcfg" THEN {"config: setting fails"} ELSE {"contract: " \o e.k}
    [] e.op = "sync" -> SyncWhy(q, e)
    [] e.op = "restart" -> ViewWhy(q.v, e.view, {q.v.ns})
    [] e.op = "dep" -> Old(e) \cup (IF e.d = Dep(q.v, e.a) THEN {} ELSE {"view: deposit"})
    [] e.op = "cal" -> CalWhy(e.list, IF e.on = "view" THEN q.v.cfgs ELSE Seen0(q.hist[e.h + 1].cfgs))
    [] e.op = "math" -> CalWhy(e.list, <<e.c>>)
    [] e.op = "peek" -> Peek(q.q, e)
    [] e.op = "nx" -> IF e.nx = q.q.nx THEN {} ELSE {"config: not what was set"}
    [] e.op = "getnx" -> IF e.nx = CfgSeen(q.hist[e.h + 1].nx) THEN {} ELSE {"config: not what the contract holds"}
    [] e.op = "json" -> JsonWhy(e)
    [] e.op = "trouble" -> {e.what}
    [] OTHER -> {}
Apply(q, e) ==
  CASE e.op = "call" -> [q EXCEPT !.q = Call(q.q, e)]
    [] e.op = "mine" -> [q EXCEPT !.q = Mine(q.q), !.hist = Append(@, q.q)]
    [] e.op = "reorg" -> LET m == Len(q.hist) - e.d IN [q EXCEPT !.hist = SubSeq(@, 1, m), !.q = Mine(q.hist[m])]
    [] e.op = "sync" -> After(q, e)
    [] OTHER -> q
Fresh(e) == [q |-> Start0(e.par, 0), hist |-> <<>>, v |-> View0, follow |-> e.follow]
TInit == s = Fresh([par |-> [headsup |-> 0, appeal |-> 0], follow |-> 0]) /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN s' = Fresh(e) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE LET d == Why(s, e) IN
          IF d = {} THEN s' = Apply(s, e) /\ skip' = FALSE
          ELSE /\ skip' = TRUE /\ s' = s
               /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e,
                          expected |-> IF e.op = "sync" /\ e.res = "ok" THEN ToString(Expected(s, e)) ELSE ToString(s.q)]))
TSpec == TInit /\ [][TNext]_<<s, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
