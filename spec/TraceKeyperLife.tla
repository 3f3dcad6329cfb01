-------------------------- MODULE TraceKeyperLife --------------------------
(* Validates recorded lives of whole keypers: what they decide, the files they keep, what they send. *)
EXTENDS KeyperDKG, Json, IOUtils
Life == INSTANCE KeyperLife
VARIABLES l, skip, L, main, chain, cur, k, D, f, at, done, om
vars == <<l, skip, L, main, chain, cur, k, D, f, at, done, om>>
(* k: the keyper as of its last saved step, taken at at = <<height, configs>>; D: everything it decided so far *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Val(v) == [id |-> v.id, valid |-> v.valid, dec |-> v.dec, fits |-> ToSet(v.fits)]
Ev(e) == IF "v" \in DOMAIN e THEN [e EXCEPT !.v = [i \in DOMAIN e.v |-> Val(e.v[i])]] ELSE e
Cfg(c) == [start |-> c.start, kp |-> c.kp, thr |-> c.thr, idx |-> c.idx]
ViewAt(h) == IF h <= 0 THEN EmptyView ELSE cur[h]
Lab(a) == IF "who" \in DOMAIN a THEN [a EXCEPT !.who = ToSet(a.who)] ELSE a
Labs(s) == [i \in DOMAIN s |-> Lab(s[i])]
IsTx(i) == D[i + 1].a = "key"
Of(e) == [n |-> e.ctr + Len(e.acts), ctr |-> e.ctr, cur |-> e.cur, pend |-> {e.pend[i].id : i \in DOMAIN e.pend}, fl |-> ToSet(e.fl)]
(* the step taken when the files show another height or config than before *)
One(q, h, mc) == Decide(q, ViewAt(h), SubSeq(main, 1, mc), L, LAMBDA eon : k.me \o "-" \o ToString(eon))
Via(e, h, mc) == LET r == One(k, h, mc) r2 == One(r.k, e.h, e.mc) IN [k |-> r2.k, acts |-> r.acts \o r2.acts]
(* the files of the step before may have been replaced before anyone looked: the news of one chain came first *)
Ways(e) == IF e.h < 0 \/ <<e.h, e.mc>> = at THEN <<[k |-> k, acts |-> <<>>]>>
           ELSE IF e.h = at[1] \/ e.mc = at[2] \/ at[1] < 0 THEN <<One(k, e.h, e.mc)>>
           ELSE <<One(k, e.h, e.mc), Via(e, e.h, at[2]), Via(e, at[1], e.mc)>>
Step(e) == LET ws == Ways(e)
               ok == {i \in DOMAIN ws : LET n == Len(D) + Len(ws[i].acts) IN
                        n = e.ctr + Len(e.acts) /\ e.ctr >= f.ctr
                        /\ Labs(e.acts) = SubSeq(D \o ws[i].acts, e.ctr + 1, n)
                        /\ \A j \in DOMAIN e.pend : e.pend[j].id < n /\ Lab(e.pend[j].a) = (D \o ws[i].acts)[e.pend[j].id + 1]}
           IN IF ok = {} THEN ws[1] ELSE ws[CHOOSE i \in ok : \A j \in ok : i <= j]
Msgs(g) == {i \in g.pend : ~IsTx(i)}
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
WhyDisk(e) ==
  IF e.bad # "" THEN {"files: " \o e.bad}
  ELSE IF e.h > Len(cur) \/ e.mc > Len(main) THEN {"files: sees more than there is"}
  ELSE LET g == Of(e) D2 == D \o Step(e).acts IN
    (IF g.n = Len(D2) THEN {} ELSE IF g.n < Len(D2) THEN {"decision: too few"} ELSE {"decision: too many"}) \cup
    (IF g.n = Len(D2) /\ Labs(e.acts) # SubSeq(D2, e.ctr + 1, g.n) THEN {"decision: another one"} ELSE {}) \cup
    (IF ~Life!FilesOK(g) THEN {"files: numbers"} ELSE {}) \cup
    (IF g.n < f.n \/ g.ctr < f.ctr \/ g.cur < f.cur THEN {"files: go back"} ELSE {}) \cup
    (IF ~(g.pend \subseteq Life!Came(f, g)) THEN {"files: done actions come back"} ELSE {}) \cup
    (IF ~(Life!Came(f, g) \ g.pend \subseteq done) \/ \E i \in 0..(f.n - 1) : ~Life!Kept(g, i, done) THEN {"files: actions lost"} ELSE {}) \cup
    (IF ~(f.fl \ g.fl \subseteq done) THEN {"files: submitted transactions lost"} ELSE {}) \cup
    (IF \E i \in DOMAIN e.pend : e.pend[i].id + 1 \in DOMAIN D2 /\ Lab(e.pend[i].a) # D2[e.pend[i].id + 1] THEN {"files: another action"} ELSE {})
Why(e) ==
  CASE e.op = "disk" -> WhyDisk(e)
    [] e.op = "send" -> IF om >= 0 THEN {"send: two at a time"} ELSE IF Msgs(f) = {} THEN {"send: not queued on disk"}
                        ELSE IF Lab(e.a) # D[MinOf(Msgs(f)) + 1] THEN {"send: not the first of the queue"} ELSE {}
    [] e.op = "submit" -> IF \E i \in f.pend \ f.fl : IsTx(i) /\ D[i + 1] = Lab(e.a) THEN {} ELSE {"send: transaction not queued on disk"}
    [] e.op = "quiet" -> IF ~e.ok THEN {"stuck"} ELSE {}
    [] e.op = "down" -> IF ~e.ended THEN {"stop: does not end"} ELSE {}
    [] e.op = "trouble" -> {"trouble: " \o e.what}
    [] OTHER -> {}
TInit == l = 1 /\ skip = TRUE /\ L = 1 /\ main = <<>> /\ chain = EmptyView /\ cur = <<>> /\ k = NewKeyper("") /\ D = <<>>
         /\ f = Life!NoFiles /\ at = <<-1, 0>> /\ done = {} /\ om = -1
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN
       /\ skip' = FALSE /\ L' = e.L /\ main' = <<>> /\ chain' = EmptyView /\ cur' = <<>> /\ k' = NewKeyper(e.me) /\ D' = <<>>
       /\ f' = Life!NoFiles /\ at' = <<-1, 0>> /\ done' = {} /\ om' = -1
     ELSE IF skip THEN UNCHANGED <<skip, L, main, chain, cur, k, D, f, at, done, om>>
     ELSE
       LET w == Why(e) IN
       /\ skip' = (w # {}) /\ UNCHANGED L
       /\ w # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> w, expected |-> [files |-> f, done |-> done, decided |-> D \o (IF e.op = "disk" /\ e.bad = "" /\ e.h <= Len(cur) THEN Step(e).acts ELSE <<>>)], got |-> e]))
       /\ main' = IF e.op = "main" THEN Append(main, Cfg(e.cfg)) ELSE main
       /\ chain' = IF e.op = "block" THEN SeeBlock(chain, [i \in DOMAIN e.evs |-> Ev(e.evs[i])]) ELSE chain
       /\ cur' = IF e.op = "block" THEN Append(cur, chain') ELSE cur
       /\ IF e.op = "disk" /\ w = {} THEN
            LET r == Step(e) IN
            k' = r.k /\ D' = D \o r.acts /\ at' = (IF e.h < 0 THEN at ELSE <<e.h, e.mc>>) /\ f' = Of(e)
          ELSE UNCHANGED <<k, D, at, f>>
       /\ done' = (CASE e.op = "answer" /\ e.res \in {"ok", "final"} /\ om >= 0 -> done \cup {om}
                    [] e.op = "mined" -> done \cup {i \in 0..(Len(D) - 1) : D[i + 1] = Lab(e.a)}
                    [] OTHER -> done)
       /\ om' = (CASE e.op = "send" /\ w = {} -> MinOf(Msgs(f))
                  [] e.op \in {"answer", "down"} -> -1
                  [] OTHER -> om)
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
