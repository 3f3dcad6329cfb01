---------------------------- MODULE MCAggregate ----------------------------
(* Three keys (a, b, a + b) and two messages: signatures are made and put together in all ways, and
   tried with every aggregate of keys. *)
EXTENDS Aggregate, TLC, Json
CONSTANTS SIGNS, AGGS, VERS, EMIT
VARIABLES sigs, signed, cnt, ops
mv == <<sigs, signed, cnt, ops>>
Keys == <<Base(1), Base(2), Plus(Base(1), Base(2))>>
Pks == <<<<1>>, <<2>>, <<1, 2>>, <<3>>, <<1, 1>>, <<1, 3>>, <<>>>>
Ops == [x \in 1..6 |-> [k |-> "sign", key |-> ((x - 1) % 3) + 1, m |-> (x - 1) \div 3 + 1]] \o
       <<[k |-> "agg", of |-> <<>>], [k |-> "agg", of |-> <<1>>], [k |-> "agg", of |-> <<1, 2>>], [k |-> "agg", of |-> <<2, 1>>], [k |-> "agg", of |-> <<1, 1>>],
         [k |-> "agg", of |-> <<1, 2, 3>>], [k |-> "agg", of |-> <<2, 4>>]>> \o
       [x \in 1..14 |-> [k |-> "verify", pks |-> Pks[((x - 1) % 7) + 1], m |-> (x - 1) \div 7 + 1]]
Init == sigs = <<>> /\ signed = {} /\ cnt = [s |-> 0, a |-> 0, v |-> 0] /\ ops = <<>>
Last1(s) == s[Len(s)]
Next == \E x \in DOMAIN Ops :
  LET o == Ops[x] IN
  /\ ops' = Append(ops, x)
  /\ CASE o.k = "sign" -> cnt.s < SIGNS /\ cnt.v = 0 /\ sigs' = Append(sigs, Sign(Keys[o.key], o.m)) /\ signed' = signed \cup {<<o.key, o.m>>} /\ cnt' = [cnt EXCEPT !.s = @ + 1]
       [] o.k = "agg" -> cnt.a < AGGS /\ cnt.v = 0 /\ (\A j \in DOMAIN o.of : o.of[j] <= Len(sigs)) /\ sigs' = Append(sigs, Total([j \in DOMAIN o.of |-> sigs[o.of[j]]])) /\ cnt' = [cnt EXCEPT !.a = @ + 1] /\ UNCHANGED signed
       [] o.k = "verify" -> sigs # <<>> /\ cnt.v < VERS /\ cnt' = [cnt EXCEPT !.v = @ + 1] /\ UNCHANGED <<sigs, signed>>
MCSpec == Init /\ [][Next]_mv
View == <<sigs, signed, cnt>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([keys |-> 3]))
PkOf(l) == Total([j \in DOMAIN l |-> Keys[l[j]]])
(* an aggregate verifies only if all whose keys are in it have signed that message *)
Signers(b, m) == \E k \in DOMAIN Keys : b \in DOMAIN Keys[k] /\ <<k, m>> \in signed
Sound == \A j \in DOMAIN sigs : \A m \in {1, 2} : \A i \in DOMAIN Pks : Verify(sigs[j], PkOf(Pks[i]), m) => \A b \in DOMAIN PkOf(Pks[i]) : Signers(b, m)
(* and with exactly one set of keys and one message, unless it is empty *)
Unique == \A j \in DOMAIN sigs : \A i, h \in DOMAIN Pks : \A m, n \in {1, 2} :
  Verify(sigs[j], PkOf(Pks[i]), m) /\ Verify(sigs[j], PkOf(Pks[h]), n) => PkOf(Pks[i]) = PkOf(Pks[h]) /\ (m = n \/ sigs[j] = None)
NeverAggregate == ~(\E j \in DOMAIN sigs : Verify(sigs[j], PkOf(<<1, 2>>), 1) /\ cnt.a > 0)
=============================================================================
