--------------------------- MODULE TraceAggregate ---------------------------
(* Validates what the real shbls computes against Aggregate; values are recorded as digests. *)
EXTENDS Aggregate, TLC, Json, IOUtils
VARIABLES s, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fresh == [key |-> <<>>, pk |-> <<>>, sig |-> <<>>]
Fits(tab, sym, val) == \A j \in DOMAIN tab : (tab[j].sym = sym) = (tab[j].val = val)
KeyOf(q, e) == IF e.base > 0 THEN Base(e.base) ELSE Total([j \in DOMAIN e.of |-> Scale(q.key[e.of[j][1]].sym, e.of[j][2])])
PkOf(q, e) == IF e.key > 0 THEN q.key[e.key].sym ELSE Total([j \in DOMAIN e.of |-> q.pk[e.of[j]].sym])
SigOf(q, e) == IF e.key > 0 THEN Sign(q.key[e.key].sym, e.m) ELSE Total([j \in DOMAIN e.of |-> q.sig[e.of[j]].sym])
Why(q, e) ==
  (IF "again" \in DOMAIN e /\ ~e.again THEN {"serialisation"} ELSE {}) \cup
  (IF "clean" \in DOMAIN e /\ ~e.clean THEN {"input changed"} ELSE {}) \cup
  CASE e.op = "key" -> IF Fits(q.key, KeyOf(q, e), e.val) THEN {} ELSE {"secret key"}
    [] e.op = "pk" -> IF Fits(q.pk, PkOf(q, e), e.val) THEN {} ELSE {"public key"}
    [] e.op = "sig" -> IF Fits(q.sig, SigOf(q, e), e.val) THEN {} ELSE {"signature"}
    [] e.op = "verify" -> IF e.ok = Verify(q.sig[e.sig].sym, q.pk[e.pk].sym, e.m) THEN {} ELSE {"verification"}
    [] e.op = "equal" -> IF e.ok = (q[e.what][e.a].sym = q[e.what][e.b].sym) THEN {} ELSE {"equality"}
    [] e.op = "trouble" -> {e.what}
Apply(q, e) ==
  CASE e.op = "key" -> [q EXCEPT !.key = Append(@, [sym |-> KeyOf(q, e), val |-> e.val])]
    [] e.op = "pk" -> [q EXCEPT !.pk = Append(@, [sym |-> PkOf(q, e), val |-> e.val])]
    [] e.op = "sig" -> [q EXCEPT !.sig = Append(@, [sym |-> SigOf(q, e), val |-> e.val])]
    [] OTHER -> q
TInit == s = Fresh /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN s' = Fresh /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE LET d == Why(s, e) IN
          /\ s' = (IF d = {} THEN Apply(s, e) ELSE s) /\ skip' = (d # {})
          /\ d # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e,
               expected |-> CASE e.op = "key" -> ToString(KeyOf(s, e)) [] e.op = "pk" -> ToString(PkOf(s, e)) [] e.op = "sig" -> ToString(SigOf(s, e))
                              [] e.op = "verify" -> ToString(<<s.sig[e.sig].sym, s.pk[e.pk].sym, e.m>>) [] OTHER -> ""]))
TSpec == TInit /\ [][TNext]_<<s, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
