----------------------------- MODULE MCEpochKey -----------------------------
(* All orders in which valid and other shares for two epochs can come in, with restarts. *)
EXTENDS EpochKey, Sequences, TLC, Json
CONSTANTS N, T, BAD, DUP, EMIT
VARIABLES got, seen, nb, nd, nr, hist
mv == <<got, seen, nb, nd, nr, hist>>
Ops == <<[op |-> "restart"]>> \o
       [i \in 1..(4 * N) |-> [op |-> "share", e |-> ((i - 1) \div N) % 2, snd |-> (i - 1) % N, ok |-> i <= 2 * N]]
Init == got = [e \in {} |-> {}] /\ seen = {} /\ nb = 0 /\ nd = 0 /\ nr = 0 /\ hist = <<>>
Do(o) ==
  CASE o.op = "restart" -> /\ nr = 0 /\ hist # <<>> /\ nr' = 1 /\ UNCHANGED <<got, seen, nb, nd>>
    [] o.op = "share" -> /\ got' = Take(got, T, o.e, o.snd, o.ok)
                         /\ seen' = IF o.ok THEN seen \cup {<<o.e, o.snd>>} ELSE seen
                         /\ nb' = IF o.ok THEN nb ELSE nb + 1
                         /\ nd' = IF <<o.e, o.snd>> \in seen THEN nd + 1 ELSE nd
                         /\ nb' <= BAD /\ nd' <= DUP /\ nr' = nr
Next == \E i \in DOMAIN Ops : Do(Ops[i]) /\ hist' = Append(hist, i)
MCSpec == Init /\ [][Next]_mv
View == <<got, seen, nb, nd, nr>>
Emit == EMIT => PrintT("T " \o ToString(hist') \o " " \o (IF View' = View THEN "0" ELSE "1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([n |-> N, t |-> T]))
(* a key exactly when T distinct keypers have sent a valid share *)
Exactly == \A e \in {0, 1} : e \in Have(got, T) <=> Cardinality({x \in seen : x[1] = e}) >= T
NeverBoth == Have(got, T) # {0, 1}
NeverAfterBad == ~(Have(got, T) # {} /\ nb = BAD /\ nd = DUP)
=============================================================================
