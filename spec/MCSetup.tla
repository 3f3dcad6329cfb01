------------------------------ MODULE MCSetup ------------------------------
(* The commands as the tool performs them. *)
EXTENDS Setup, Json, TLC
CONSTANTS CMDS, BUG, EMIT
VARIABLES q, paid, cnt, last, ops
mv == <<q, paid, cnt, last, ops>>
FEE == 21
OWNER == 2000
SINK == 2001
Ops == <<[k |-> "init", index |-> 0, dev |-> TRUE, gk |-> 0], [k |-> "init", index |-> 1, dev |-> FALSE, gk |-> 2], [k |-> "init", index |-> 0, dev |-> FALSE, gk |-> 9],
         [k |-> "lose", what |-> "pv"], [k |-> "lose", what |-> "nkey"], [k |-> "lose", what |-> "gen"], [k |-> "sign"], [k |-> "spoil"],
         [k |-> "prepare", n |-> 1], [k |-> "prepare", n |-> 2], [k |-> "prepare", n |-> 0], [k |-> "drop", i |-> 0],
         [k |-> "money", i |-> 0, x |-> 499999], [k |-> "money", i |-> 1, x |-> 500000], [k |-> "money", i |-> 0, x |-> FEE], [k |-> "money", i |-> -1, x |-> 1200000],
         [k |-> "fund"], [k |-> "unfund", n |-> 1], [k |-> "unfund", n |-> 2]>>
Init == q = Start(1, 1, 2, (OWNER :> 9000000)) /\ paid = 0 /\ cnt = 0 /\ last = "" /\ ops = <<>>
N == q.nodes[1]
D == q.dirs[1]
DoInit(o) ==
  LET b == q.ids
      keep(x) == Has(x) /\ BUG # "renew"
      pv == IF keep(N.pv) THEN N.pv ELSE b + 1
      nk == IF keep(N.nkey) THEN N.nkey ELSE b + 2
      kp == IF o.gk = 0 THEN <<Default>> ELSE [i \in 1..o.gk |-> 2002 + i]
      gen == IF keep(N.gen.id) THEN N.gen ELSE [id |-> b + 3, kp |-> kp, thr |-> TwoThirds(Len(kp)), val |-> pv, power |-> 10] IN
  IF o.gk = 9 \/ N.st = -2 THEN q
  ELSE [q EXCEPT !.nodes[1] = [pv |-> pv, st |-> IF keep(N.pv) THEN N.st ELSE 0, nkey |-> nk, gen |-> gen, rpc |-> 26657 + 2 * o.index, p2p |-> 26656 + 2 * o.index, commit |-> 1000, bcast |-> 10000,
                                dev |-> o.dev, app |-> TRUE], !.ids = b + 3]
Made(k) == [f |-> q.ids + 4 * k - 3, sk |-> q.ids + 4 * k - 2, ek |-> q.ids + 4 * k - 1, vs |-> q.ids + 4 * k, eth |-> 1, shm |-> 1, cs |-> 1, rest |-> TRUE, priv |-> TRUE]
DoPrepare(o) ==
  LET taken == {k \in 1..o.n : Has(D.keypers[k].f)}
      upto == IF taken = {} \/ BUG = "overwrite" THEN o.n ELSE Min(taken) - 1
      kps == [k \in DOMAIN D.keypers |-> IF k <= upto THEN Made(k) ELSE D.keypers[k]] IN
  IF o.n = 0 THEN q
  ELSE [q EXCEPT !.dirs[1].keypers = kps, !.ids = q.ids + 4 * o.n + 1,
        !.dirs[1].json = IF taken # {} THEN @ ELSE [f |-> q.ids + 4 * o.n + 1, kp |-> [k \in 1..o.n |-> kps[k].sk], thr |-> TwoThirds(o.n), cs |-> 1, rest |-> TRUE]]
Account(i) == IF i = -1 THEN OWNER ELSE D.keypers[i + 1].sk
Poor == {a \in ToSet(D.json.kp) : Need(q.bal, a) > 0}
CanPay == Bal(q.bal, OWNER) >= Sum(q.bal, Poor) + FEE * Cardinality(Poor)
(* the owner may run out of money half way *)
Paid == LET l == SelectSeq(D.json.kp, LAMBDA a : a \in Poor) IN
        {l[i] : i \in {j \in DOMAIN l : Bal(q.bal, OWNER) >= Sum(q.bal, {l[x] : x \in 1..j}) + FEE * j}}
Keys(o) == SelectSeq([i \in 1..o.n |-> Account(i - 1)], LAMBDA a : a # 0)
Next == \E i \in DOMAIN Ops :
  LET o == Ops[i] IN
  /\ ops' = Append(ops, i) /\ last' = o.k
  /\ cnt < CMDS /\ cnt' = cnt + 1
  /\ CASE o.k = "init" -> q' = DoInit(o) /\ UNCHANGED paid
       [] o.k = "lose" -> /\ (o.what = "pv" => Has(N.pv)) /\ (o.what = "nkey" => Has(N.nkey)) /\ (o.what = "gen" => Has(N.gen.id))
                          /\ q' = [q EXCEPT !.nodes[1] = CASE o.what = "pv" -> [@ EXCEPT !.pv = 0, !.st = -1] [] o.what = "nkey" -> [@ EXCEPT !.nkey = 0] [] OTHER -> [@ EXCEPT !.gen = NoGen]]
                          /\ UNCHANGED paid
       [] o.k = "sign" -> Has(N.pv) /\ N.st >= 0 /\ q' = [q EXCEPT !.nodes[1].st = @ + 1] /\ UNCHANGED paid
       [] o.k = "spoil" -> Has(N.pv) /\ N.st # -2 /\ q' = [q EXCEPT !.nodes[1].st = -2, !.nodes[1].pv = q.ids + 1, !.ids = @ + 1] /\ UNCHANGED paid
       [] o.k = "prepare" -> q' = DoPrepare(o) /\ UNCHANGED paid
       [] o.k = "drop" -> Has(D.keypers[o.i + 1].f) /\ q' = [q EXCEPT !.dirs[1].keypers[o.i + 1] = NoKeyper] /\ UNCHANGED paid
       [] o.k = "money" -> Has(Account(o.i)) /\ q' = [q EXCEPT !.bal = Plus(@, Account(o.i), o.x - Bal(@, Account(o.i)))] /\ paid' = paid + Bal(q.bal, Account(o.i)) - o.x
       [] o.k = "fund" -> Has(D.json.f) /\ q' = [q EXCEPT !.bal = Funded(@, OWNER, Paid, FEE * Cardinality(Paid))] /\ paid' = paid + FEE * Cardinality(Paid)
       [] o.k = "unfund" -> /\ Keys(o) # <<>>
                            /\ q' = [q EXCEPT !.bal = Drained(@, Keys(o), SINK, FEE)]
                            /\ paid' = paid + FEE * Cardinality({a \in ToSet(Keys(o)) : Bal(q.bal, a) > FEE})
MCSpec == Init /\ [][Next]_mv
View == <<q, paid, cnt, last>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS {}")

(* what the tool does is what is asked of it *)
Event(o) == CASE o.k = "init" -> [root |-> 1, index |-> o.index, dev |-> o.dev, gk |-> IF o.gk = 9 THEN <<>> ELSE [i \in 1..o.gk |-> 2002 + i], bt |-> 1000, bad |-> o.gk = 9, broken |-> N.st = -2,
                                  ok |-> ~(o.gk = 9 \/ N.st = -2), node |-> q'.nodes[1]]
              [] o.k = "prepare" -> [dir |-> 1, n |-> o.n, eth |-> 1, shm |-> 1, cs |-> 1, bad |-> o.n = 0, ok |-> o.n > 0 /\ \A k \in 1..o.n : ~Has(D.keypers[k].f), after |-> q'.dirs[1]]
              [] o.k = "fund" -> [kp |-> D.json.kp, from |-> OWNER, bad |-> FALSE, fault |-> FALSE, ok |-> Paid = Poor, bal |-> q'.bal, fees |-> paid' - paid]
              [] OTHER -> [keys |-> Keys(o), to |-> SINK, bad |-> FALSE, fault |-> FALSE, ok |-> TRUE, bal |-> q'.bal, fee |-> FEE]
AsAsked == [][LET o == Ops[Last(ops')] IN
  CASE o.k = "init" -> InitOK(q, Event(o)) [] o.k = "prepare" -> PrepareOK(q, Event(o)) [] o.k = "fund" -> FundOK(q, Event(o)) [] o.k = "unfund" -> UnfundOK(q, Event(o)) [] OTHER -> TRUE]_mv
(* no command forgets a key or what a node has signed *)
Kept == [][LET z == q'.nodes[1] IN last' \in {"init", "prepare", "fund", "unfund"} =>
  /\ (Has(N.pv) => z.pv = N.pv /\ z.st = N.st) /\ (Has(N.nkey) => z.nkey = N.nkey) /\ (Has(N.gen.id) => z.gen = N.gen)
  /\ \A k \in DOMAIN D.keypers : Has(D.keypers[k].f) => q'.dirs[1].keypers[k] = D.keypers[k]]_mv
AllSecrets == Ids(Flat([k \in DOMAIN D.keypers |-> Secrets(D.keypers[k])]) \o <<N.pv, N.nkey>>)
Distinct == \A i, j \in DOMAIN AllSecrets : i # j => AllSecrets[i] # AllSecrets[j]
(* money neither appears nor disappears *)
Conserved == FoldLeft(LAMBDA s, a : s + Bal(q.bal, a), 0, SetToSeq(DOMAIN q.bal)) + paid = 9000000
NeverNegative == \A a \in DOMAIN q.bal : q.bal[a] >= 0
(* after funding nobody is poor, unless the owner is; funding again changes nothing *)
Enough == last = "fund" => \A a \in ToSet(D.json.kp) : Bal(q.bal, a) >= Low \/ Bal(q.bal, OWNER) < High + FEE
NeverHalf == ~(last = "fund" /\ Cardinality(Poor) = 1) \* witnesses
NeverMixed == ~(Has(N.gen.id) /\ Has(N.pv) /\ N.gen.val # N.pv)
NeverTwo == Len(D.json.kp) < 2
=============================================================================
