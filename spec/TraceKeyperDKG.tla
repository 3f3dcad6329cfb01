-------------------------- MODULE TraceKeyperDKG --------------------------
(* Validates recorded runs of real keypers (Decider, observe.Shutter) on a real keyper chain. *)
EXTENDS KeyperDKG, Json, IOUtils
VARIABLES l, skip, L, main, chain, cur, ks, pk
tvars == <<l, skip, L, main, chain, cur, ks, pk>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* events: lists to sets where the specification has sets *)
Val(v) == [id |-> v.id, valid |-> v.valid, dec |-> v.dec, fits |-> ToSet(v.fits)]
Ev(e) == IF "v" \in DOMAIN e THEN [e EXCEPT !.v = [i \in DOMAIN e.v |-> Val(e.v[i])]] ELSE e
Cfg(c) == [start |-> c.start, kp |-> c.kp, thr |-> c.thr, idx |-> c.idx]
ViewAt(h) == IF h <= 0 THEN EmptyView ELSE cur[h]     \* cur[h]: the view after block h

Act(a) == IF "who" \in DOMAIN a THEN [x \in DOMAIN a \ {"good"} |-> IF x = "who" THEN ToSet(a.who) ELSE a[x]]
          ELSE [x \in DOMAIN a \ {"good"} |-> a[x]]
OwnOf(o, eon, me) == LET s == SelectSeq(o.own, LAMBDA x : x.eon = eon) IN IF s = <<>> THEN "hidden-" \o me \o ToString(eon) ELSE s[1].c
Kind(a) == IF a \in {"pc", "pe", "ac", "ap"} THEN "key generation message" ELSE IF a = "key" THEN "eon key" ELSE IF a = "esv" THEN "restart vote"
           ELSE IF a = "ci" THEN "check-in" ELSE IF a = "bc" THEN "config vote" ELSE "unknown action"
NewResults(k0, k1) == {d \in ToSet(k1.dkgs) : d.pure.phase = Finalized /\ Result(d.pure).ok /\
                          ~\E j \in DOMAIN k0.dkgs : k0.dkgs[j].eon = d.eon /\ k0.dkgs[j].pure.phase = Finalized}
Key(d) == {[i |-> k[1], c |-> k[2]] : k \in Result(d.pure).key}
Why(k0, r, o) ==
  LET exp == r.acts
      got == [i \in DOMAIN o.acts |-> Act(o.acts[i])]
      E == ToSet(exp) G == ToSet(got)
      ds == NewResults(k0, r.k)
  IN  {Kind(a.a) : a \in (E \ G) \cup (G \ E)} \cup
      {Kind(got[i].a) : i \in {i \in DOMAIN got : \E j \in DOMAIN got : j # i /\ got[j] = got[i] /\ Len(SelectSeq(exp, LAMBDA x : x = got[i])) # Len(SelectSeq(got, LAMBDA x : x = got[i]))}} \cup
      {Kind(o.acts[i].a) : i \in {i \in DOMAIN o.acts : ~o.acts[i].good}} \cup
      (IF {d.eon : d \in ds} # {o.res[i].eon : i \in DOMAIN o.res} \/ Cardinality(ds) # Len(o.res) THEN {"outcome"}
       ELSE UNION {LET d == CHOOSE d \in ds : d.eon = o.res[i].eon IN
            (IF ~\E j \in DOMAIN o.res[i].sets : ToSet(o.res[i].sets[j]) = Key(d) THEN {"contributors"} ELSE {}) \cup
            (IF ~o.res[i].good THEN {"key share"} ELSE {}) \cup
            (IF \E p \in pk : p[1] = <<d.eon, Key(d)>> /\ (p[2] # o.res[i].pk \/ p[3] # o.res[i].pks) THEN {"agreement"} ELSE {}) : i \in DOMAIN o.res})
TInit == l = 1 /\ skip = TRUE /\ L = 1 /\ main = <<>> /\ chain = EmptyView /\ cur = <<>> /\ ks = [x \in {} |-> 0] /\ pk = {}
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN
       /\ skip' = FALSE /\ L' = e.L /\ main' = <<>> /\ chain' = EmptyView /\ cur' = <<>> /\ pk' = {}
       /\ ks' = [k \in ToSet(e.me) |-> NewKeyper(k)]
     ELSE IF skip THEN UNCHANGED <<skip, L, main, chain, cur, ks, pk>>
     ELSE IF e.op = "main" THEN main' = Append(main, Cfg(e.cfg)) /\ UNCHANGED <<skip, L, chain, cur, ks, pk>>
     ELSE IF e.op = "block" THEN
       LET v == SeeBlock(chain, [i \in DOMAIN e.evs |-> Ev(e.evs[i])]) IN
       chain' = v /\ cur' = Append(cur, v) /\ UNCHANGED <<skip, L, main, ks, pk>>
     ELSE IF e.op = "decide" THEN
       /\ UNCHANGED <<L, main, chain, cur>>
       /\ IF "panic" \in DOMAIN e.out THEN
            /\ skip' = TRUE /\ UNCHANGED <<ks, pk>>
            /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> {"crash"}, expected |-> "a decision", got |-> e.out]))
          ELSE
          LET k0 == ks[e.k]
              r == IF ~e.synced THEN [k |-> k0, acts |-> <<>>] ELSE   \* waits for its nodes
                   Decide(k0, ViewAt(e.h), SubSeq(main, 1, e.mc), L, LAMBDA eon : OwnOf(e.out, eon, e.k))
              bad == Why(k0, r, e.out)
              ds == NewResults(k0, r.k)
          IN  /\ skip' = (bad # {})
              /\ ks' = [ks EXCEPT ![e.k] = r.k]
              /\ pk' = pk \cup {<<<<d.eon, Key(d)>>, e.out.res[i].pk, e.out.res[i].pks>> :
                                  <<d, i>> \in {x \in ds \X (DOMAIN e.out.res) : e.out.res[x[2]].eon = x[1].eon}}
              /\ bad # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> bad, expected |-> [acts |-> r.acts, keys |-> {[eon |-> d.eon, key |-> Key(d)] : d \in ds}], got |-> e.out]))
     ELSE IF e.op = "restart" THEN
       /\ UNCHANGED <<L, main, chain, cur, ks, pk>>
       /\ LET bad == "panic" \in DOMAIN e.out \/ (~"panic" \in DOMAIN e.out /\ e.out.lost # 0) IN
          /\ skip' = bad
          /\ bad => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> {"restart"}, expected |-> "nothing lost", got |-> e.out]))
     ELSE \* the application crashed
       /\ UNCHANGED <<L, main, chain, cur, ks, pk>> /\ skip' = TRUE
       /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> {"application crash"}, expected |-> "", got |-> ""]))
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
