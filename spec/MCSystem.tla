------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* The protocol among keypers that yields it. HONEST keypers may be down   *)
(* at times (DOWNS times altogether), CORE ones never are. LIARS have said *)
(* everything there is to say, or (TALK = FALSE) say nothing. What others  *)
(* can do grows with what is said, so that these two are all that matters. *)
(* SYNC: keypers have the time to do what they can between two blocks of   *)
(* the main chain.                                                         *)
(***************************************************************************)
EXTENDS System, Json, TLC
CONSTANTS HONEST, CORE, LIARS, THR, SPAN, TIMEOUT, MAXN, TXS, EONS, DOWNS, SYNC, TALK, BUG, EMIT
VARIABLES s, sh, sg, up, downs, last, ops
mv == <<s, sh, sg, up, downs, last, ops>>
Batches == 0..((MAXN - 1) \div SPAN)
Ops == <<[k |-> "block", n |-> 1], [k |-> "submit", t |-> "cipher"], [k |-> "submit", t |-> "plain"], [k |-> "submit", t |-> "garbage"],
         [k |-> "stop"], [k |-> "start"], [k |-> "eon"]>>
Nothing == [op |-> ""]
(* sh: shares given up, <<keyper, batch, eon>>; sg: decryptions signed, <<keyper, batch, content>> *)
Init ==
  /\ s = [Start(CORE # {}) EXCEPT !.cfgs = <<[start |-> 0, block |-> 1, span |-> SPAN, timeout |-> TIMEOUT, thr |-> THR, kp |-> SetToSeq(HONEST \cup LIARS)]>>]
  /\ sh = {} /\ sg = {} /\ up = HONEST /\ downs = 0 /\ last = Nothing /\ ops = <<>>
Open == s.n \div SPAN    \* the batch that takes transactions in the next block
Eon(b) == LET k == {i \in DOMAIN s.eons : s.eons[i] <= b} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : j <= i
Lies == IF TALK THEN Cardinality(LIARS) ELSE 0
Secret(b, i) == Cardinality({k \in HONEST : <<k, b, i>> \in sh}) + Lies >= THR
Reads(b, i) == {t.id : t \in {x \in Good(s, b) : x.key = i}}
Agreed(b, v) == Cardinality({k \in HONEST : <<k, b, v>> \in sg}) + Lies >= THR

CanShare(k, b) == k \in up /\ Eon(b) > 0 /\ (Closed(s, b) \/ (BUG = "early" /\ b = Open)) /\ (\A i \in DOMAIN s.eons : <<k, b, i>> \notin sh)
CanSign(k, b, i) == k \in up /\ Secret(b, i) /\ Closed(s, b) /\ (\A v \in SUBSET (1..TXS) : <<k, b, v>> \notin sg)
CanExec(k, b, v) == k \in up /\ (s.half = 2 * b \/ (BUG = "order" /\ s.half < 2 * b)) /\ <<k, b, v>> \in sg /\ Agreed(b, v)
CanPlain(k, b) == k \in up /\ s.half = 2 * b + 1
CanSkip(k, b) == k \in up /\ s.half = 2 * b /\ Closed(s, b) /\ s.n >= End(s, b) + (IF BUG = "skip" THEN 0 ELSE TIMEOUT)
Busy == \E k \in up, b \in Batches :
  \/ CanShare(k, b) \/ CanPlain(k, b)
  \/ \E i \in DOMAIN s.eons : CanSign(k, b, i)
  \/ \E v \in SUBSET (1..TXS) : CanExec(k, b, v)
  \/ CanSkip(k, b)

Op(x) == ops' = IF EMIT THEN Append(ops, x) ELSE ops
Mine == /\ s.n < MAXN /\ (SYNC => ~Busy)
        /\ s' = [s EXCEPT !.n = @ + 1] /\ last' = Nothing /\ Op(1) /\ UNCHANGED <<sh, sg, up, downs>>
Submit(x) ==
  /\ Len(s.txs) < TXS /\ Open \in Batches
  /\ \E i \in DOMAIN s.eons \cup {0} :
       /\ IF x = 2 THEN i > 0 /\ s.eons[i] <= Open /\ (\A j \in DOMAIN s.eons : s.eons[j] <= Open => s.eons[j] <= s.eons[i]) ELSE i = 0
       /\ s' = [s EXCEPT !.txs = Append(@, [b |-> Open, id |-> Len(@) + 1, kind |-> IF x = 3 THEN "plain" ELSE "cipher", good |-> x # 4, wild |-> FALSE,
                                            e |-> IF i > 0 THEN s.eons[i] ELSE 0 - 1, key |-> i])]
  /\ last' = Nothing /\ Op(x) /\ UNCHANGED <<sh, sg, up, downs>>
NewEon == /\ Len(s.eons) < EONS /\ \E b \in {Open, Open + 1} : s' = [s EXCEPT !.eons = Append(@, b)]
          /\ last' = Nothing /\ Op(7) /\ UNCHANGED <<sh, sg, up, downs>>
Stop(k) == /\ k \in up \ CORE /\ downs < DOWNS /\ up' = up \ {k} /\ downs' = downs + 1 /\ last' = Nothing /\ Op(5) /\ UNCHANGED <<s, sh, sg>>
Restart(k) == /\ k \in HONEST \ up /\ up' = up \cup {k} /\ last' = Nothing /\ Op(6) /\ UNCHANGED <<s, sh, sg, downs>>
Share(k, b) == /\ CanShare(k, b) /\ sh' = sh \cup {<<k, b, Eon(b)>>} /\ last' = [op |-> "share", by |-> k, b |-> b] /\ UNCHANGED <<s, sg, up, downs, ops>>
Sign(k, b) == /\ \E i \in DOMAIN s.eons : CanSign(k, b, i) /\ sg' = sg \cup {<<k, b, Reads(b, i)>>}
              /\ last' = Nothing /\ UNCHANGED <<s, sh, up, downs, ops>>
Exec(b, kind, ids) == /\ last' = [op |-> "exec", kind |-> kind, b |-> b, ids |-> ids] /\ s' = [s EXCEPT !.half = @ + 1] /\ UNCHANGED <<sh, sg, up, downs, ops>>
Execute(k, b) == \/ \E v \in SUBSET (1..TXS) : CanExec(k, b, v) /\ Exec(b, "cipher", SetToSeq(v))
                 \/ CanPlain(k, b) /\ Exec(b, "plain", Plain(s, b))
                 \/ CanSkip(k, b) /\ (SYNC => \A v \in SUBSET (1..TXS) : ~CanExec(k, b, v)) /\ Exec(b, "skip", <<>>)
Step(k) == \E b \in Batches : Share(k, b) \/ Sign(k, b) \/ Execute(k, b)
Next == \/ Mine \/ (\E x \in 2..4 : Submit(x)) \/ NewEon
        \/ \E k \in HONEST : Stop(k) \/ Restart(k) \/ Step(k)
MCSpec == Init /\ [][Next]_mv
Fair == MCSpec /\ WF_mv(Mine) /\ \A k \in HONEST : WF_mv(Step(k)) /\ (k \notin CORE => WF_mv(Restart(k)))
View == <<s, sh, sg, up, downs, last>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS {}")

(* nobody learns what users sent while it can still be answered *)
Hidden == \A b \in Batches, i \in DOMAIN s.eons : Secret(b, i) => Closed(s, b)
AsAsked == [][CASE last'.op = "share" -> ShareOK(s, last') [] last'.op = "exec" -> ExecOK(s, last') [] OTHER -> TRUE]_mv
(* everything closed is executed in the end, however often keypers stop *)
AllDone == \A b \in Batches : [](Closed(s, b) /\ MAXN >= End(s, b) + TIMEOUT => <>(s.half >= 2 * (b + 1)))
NeverRead == last.op = "exec" /\ last.kind = "cipher" => last.ids = <<>> \* witnesses
NeverSkipped == last.op = "exec" => last.kind # "skip"
NeverLost == last.op = "exec" /\ last.kind = "cipher" => ToSet(last.ids) = May(s, last.b)
NeverBoth == last.op = "exec" /\ last.kind = "plain" => last.ids = <<>> \/ Good(s, last.b) = {}
=============================================================================
