---------------------------- MODULE TraceShuffle ----------------------------
(* Validates what the real Shuffle does with recorded lists and keys. *)
EXTENDS Shuffle, TLC, Json, IOUtils
VARIABLES s, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Why(q, e) ==
  CASE e.op = "order" -> (IF e.clean THEN {} ELSE {"the list or the key changed"}) \cup
                         (IF IsOrder(e.perm, e.n) THEN {} ELSE {"not each transaction once"}) \cup
                         (IF e.same THEN {} ELSE {"the order depends on the transactions"}) \cup
                         (IF \A j \in DOMAIN q : q[j].key = e.key /\ q[j].n = e.n => q[j].perm = e.perm THEN {} ELSE {"another order for the same key"})
    [] e.op = "spread" -> IF SpreadOK(e.n, e.keys, e.count, e.orders, e.most) THEN {} ELSE {"the order can be foreseen without the key"}
    [] e.op = "many" -> IF ManyOK(e.keys, e.orders) THEN {} ELSE {"keys share orders"}
    [] e.op = "trouble" -> {e.what}
Apply(q, e) == IF e.op = "order" THEN Append(q, e) ELSE q
TInit == s = <<>> /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN s' = <<>> /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE LET d == Why(s, e) IN
          /\ s' = (IF d = {} THEN Apply(s, e) ELSE s) /\ skip' = (d # {})
          /\ d # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e, expected |-> ""]))
TSpec == TInit /\ [][TNext]_<<s, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
