-------------------------- MODULE TraceKeyperView --------------------------
(* Validates recorded synchronisations of the real observe.Shutter: after every step the logged *)
(* view must contain exactly the needed events of the chain and nothing that is not in the chain *)
EXTENDS KeyperView, Json, IOUtils
VARIABLES l, skip, full
tvars == <<chain, view, l, skip, full>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

PairsOf(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
FnOf(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> (CHOOSE i \in DOMAIN s : s[i][1] = k)]
LoggedBatches(o) == LET f == FnOf(o.batches) IN [k \in DOMAIN f |-> o.batches[f[k]][2]]
LoggedKeys(o) == LET f == FnOf(o.keys) IN [k \in DOMAIN f |-> o.keys[f[k]][2]]
Kinds == {"pc", "pe", "ac", "ap", "sh"}
OfKind(s, t) == SelectSeq(s, LAMBDA x : x.ev.t = t)
(* the real view keeps one list per kind of message *)
EonMatches(v, lo, se, fu) ==
  /\ lo.eon = se.eon /\ lo.h = se.h /\ lo.start = se.start
  /\ \A t \in Kinds : /\ Keep(v, lo[t]) = Keep(v, OfKind(se.msgs, t))
                      /\ \A i, j \in DOMAIN lo[t] : i < j => lo[t][i].h <= lo[t][j].h
                      /\ \A i \in DOMAIN lo[t] : lo[t][i] \in {fu.msgs[j] : j \in DOMAIN fu.msgs}
                      /\ Len(lo[t]) <= Len(OfKind(fu.msgs, t))
Diffs(v, f, o) ==
  (IF o.cur # v.cur THEN {"height"} ELSE {}) \cup
  (IF LoggedKeys(o) # v.keys \/ Len(o.keys) # Cardinality(DOMAIN v.keys) THEN {"keys"} ELSE {}) \cup
  (IF o.cfgs # v.cfgs THEN {"configs"} ELSE {}) \cup
  (IF Len(o.eons) # Len(v.eons) THEN {"eons"}
   ELSE IF \E i \in DOMAIN o.eons : ~EonMatches(v, o.eons[i], v.eons[i], f.eons[i]) THEN {"eon messages"} ELSE {}) \cup
  (LET b == LoggedBatches(o) IN
   IF \E x \in DOMAIN v.batches : x >= v.bi /\ (x \notin DOMAIN b \/ b[x] # v.batches[x]) THEN {"batches"} ELSE {}) \cup
  (LET b == LoggedBatches(o) IN
   IF \E x \in DOMAIN b : x \notin DOMAIN f.batches \/ Len(b[x]) > Len(f.batches[x]) \/ (x >= v.bi /\ x \notin DOMAIN v.batches)
   THEN {"foreign batches"} ELSE {})

Apply(v, e) ==
  CASE e.op = "sync" -> ApplyUpTo(v, e.h)
    [] e.op = "filter" -> Forget([v EXCEPT !.sh = Max2(@, e.sh), !.bi = Max2(@, e.bi)])
    [] OTHER -> v
TInit == chain = <<>> /\ view = EmptyView /\ full = EmptyView /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN chain' = <<>> /\ view' = EmptyView /\ full' = EmptyView /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<chain, view, full, skip>>
     ELSE IF e.op = "block" THEN chain' = Append(chain, e.evs) /\ UNCHANGED <<view, full, skip>>
     ELSE IF e.op = "blocks" THEN chain' = chain \o [i \in 1..e.n |-> <<>>] /\ UNCHANGED <<view, full, skip>>
     ELSE /\ chain' = chain
          /\ view' = Apply(view, e)
          /\ full' = IF e.op = "sync" THEN ApplyUpTo(full, e.h) ELSE full
          /\ LET d == IF "same" \in DOMAIN e.out THEN (IF e.out.same THEN {} ELSE {"earlier view changed"})
                      ELSE IF "err" \in DOMAIN e.out THEN {e.out.err} ELSE Diffs(view', full', e.out) IN
             IF d = {} THEN skip' = FALSE
             ELSE /\ skip' = TRUE
                  /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, expected |-> view', got |-> e.out]))
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
