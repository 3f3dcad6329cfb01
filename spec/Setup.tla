------------------------------- MODULE Setup -------------------------------
(***************************************************************************)
(* The commands that set a keyper set up: "init" makes the files of a      *)
(* tendermint node, "prepare configs" makes keypers with their keys,       *)
(* "prepare fund" and "prepare unfund" move money to and from them.        *)
(*                                                                         *)
(* Everything secret or unique (keys, the genesis document, files) has a   *)
(* number, given in the order in which it was first seen; 0: there is      *)
(* none. A number above q.ids therefore belongs to something new.          *)
(* An account is the number of its key, or from 2000 on if nobody in here  *)
(* has the key. Money is in millionths of an ether.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NoGen == [id |-> 0, kp |-> <<>>, thr |-> 0, val |-> 0, power |-> 0]
NoNode == [pv |-> 0, st |-> -1, nkey |-> 0, gen |-> NoGen, rpc |-> 0, p2p |-> 0, commit |-> 0, bcast |-> 0, dev |-> FALSE, app |-> FALSE]
NoKeyper == [f |-> 0, sk |-> 0, ek |-> 0, vs |-> 0, eth |-> 0, shm |-> 0, cs |-> 0, rest |-> FALSE, priv |-> FALSE]
NoJson == [f |-> 0, kp |-> <<>>, thr |-> 0, cs |-> 0, rest |-> FALSE]
Default == 2029 \* the account that a genesis document names when it is given none
TwoThirds(n) == (2 * n + 2) \div 3
Has(x) == x # 0

Ids(s) == FoldLeft(LAMBDA l, x : IF x = 0 THEN l ELSE Append(l, x), <<>>, s)
(* all new, and no two the same *)
AllNew(q, s) == LET l == s IN /\ \A i \in DOMAIN l : l[i] > q.ids
                              /\ \A i, j \in DOMAIN l : i # j => l[i] # l[j]

(* ---- init: makes what is missing, keeps what is there *)
InitOK(q, e) ==
  LET o == q.nodes[e.root]
      z == e.node
      made == (IF Has(o.pv) THEN <<>> ELSE <<z.pv>>) \o (IF Has(o.nkey) THEN <<>> ELSE <<z.nkey>>) \o (IF Has(o.gen.id) THEN <<>> ELSE <<z.gen.id>>)
      kp == IF e.gk = <<>> THEN <<Default>> ELSE e.gk IN
  CASE e.bad -> ~e.ok /\ z = o
    [] e.broken -> ~e.ok /\ [z EXCEPT !.rpc = 0, !.p2p = 0, !.commit = 0, !.bcast = 0, !.app = FALSE, !.dev = FALSE] = [o EXCEPT !.rpc = 0, !.p2p = 0, !.commit = 0, !.bcast = 0, !.app = FALSE, !.dev = FALSE]
    [] OTHER ->
       /\ e.ok /\ AllNew(q, made)
       /\ (Has(o.pv) => z.pv = o.pv /\ z.st = o.st) /\ (~Has(o.pv) => z.st = 0)
       /\ (Has(o.nkey) => z.nkey = o.nkey)
       /\ z.gen = (IF Has(o.gen.id) THEN o.gen ELSE [id |-> z.gen.id, kp |-> kp, thr |-> TwoThirds(Len(kp)), val |-> z.pv, power |-> 10])
       /\ z.rpc = 26657 + 2 * e.index /\ z.p2p = 26656 + 2 * e.index
       /\ z.commit = e.bt /\ z.bcast = 10 * e.bt
       /\ z.app /\ z.dev = e.dev

(* ---- prepare configs: makes keypers 0 .. n-1 in a directory *)
WellMade(e, x) == x.eth = e.eth /\ x.shm = e.shm /\ x.cs = e.cs /\ x.rest /\ x.priv /\ Has(x.f) /\ Has(x.sk)
Secrets(x) == <<x.sk, x.ek, x.vs>>
Flat(ss) == FoldLeft(LAMBDA l, x : l \o x, <<>>, ss)
PrepareOK(q, e) ==
  LET o == q.dirs[e.dir]
      z == e.after
      taken == {k \in 1..e.n : Has(o.keypers[k].f)}
      new == {k \in DOMAIN z.keypers : z.keypers[k] # o.keypers[k]}
      fresh == /\ new \subseteq 1..e.n /\ new \cap taken = {}
               /\ \A k \in new : WellMade(e, z.keypers[k])
               /\ AllNew(q, Flat([i \in 1..Cardinality(new) |-> Secrets(z.keypers[SetToSortSeq(new, <)[i]])])) IN
  IF e.bad THEN ~e.ok /\ z = o
  ELSE IF taken # {} THEN ~e.ok /\ fresh /\ z.json = o.json
  ELSE /\ e.ok /\ fresh /\ new = 1..e.n
       /\ z.json = [f |-> z.json.f, kp |-> [i \in 1..e.n |-> z.keypers[i].sk], thr |-> TwoThirds(e.n), cs |-> e.cs, rest |-> TRUE]
       /\ z.json.f > q.ids

(* ---- money *)
Low == 500000
High == 1000000
Bal(b, a) == IF a \in DOMAIN b THEN b[a] ELSE 0
Need(b, a) == IF Bal(b, a) < Low THEN High - Bal(b, a) ELSE 0
Plus(b, a, x) == [c \in DOMAIN b \cup {a} |-> IF c = a THEN Bal(b, a) + x ELSE b[c]]
SameMoney(b, d) == \A a \in DOMAIN b \cup DOMAIN d : Bal(b, a) = Bal(d, a)
Sum(b, S) == FoldLeft(LAMBDA s, a : s + Need(b, a), 0, SetToSeq(S))
(* the keypers in S have been given what they need *)
Funded(b, from, S, fees) == Plus([a \in DOMAIN b \cup S |-> IF a \in S THEN Bal(b, a) + Need(b, a) ELSE b[a]], from, 0 - Sum(b, S) - fees)
(* e.fees: what the miners got; a slack of 200 for each transaction when it comes to what the owner can afford *)
FundOK(q, e) ==
  LET b == q.bal
      poor == {a \in ToSet(e.kp) : Need(b, a) > 0} IN
  IF e.bad THEN ~e.ok /\ SameMoney(b, e.bal)
  ELSE IF e.ok THEN SameMoney(e.bal, Funded(b, e.from, poor, e.fees))
  ELSE /\ e.fault \/ Bal(b, e.from) < Sum(b, poor) + 200 * Cardinality(poor)
       /\ \E S \in SUBSET poor : SameMoney(e.bal, Funded(b, e.from, S, e.fees))
(* an account is emptied: the receiver gets all but the fee *)
Drain(b, a, to, fee) == IF Bal(b, a) <= fee THEN b ELSE LET x == Bal(b, a) IN Plus(Plus(b, a, 0 - x), to, x - fee)
Drained(b, s, to, fee) == FoldLeft(LAMBDA m, a : Drain(m, a, to, fee), b, s)
UnfundOK(q, e) ==
  IF e.bad THEN ~e.ok /\ SameMoney(q.bal, e.bal)
  ELSE IF ~e.fault THEN e.ok /\ SameMoney(e.bal, Drained(q.bal, e.keys, e.to, e.fee))
  ELSE \E S \in SUBSET DOMAIN e.keys : SameMoney(e.bal, Drained(q.bal, [i \in 1..Cardinality(S) |-> e.keys[SetToSortSeq(S, <)[i]]], e.to, e.fee))
BalancesOK(q, e) ==
  IF e.bad THEN ~e.ok
  ELSE /\ e.ok /\ e.rows = [i \in DOMAIN e.kp |-> <<i - 1, e.kp[i], Bal(q.bal, e.kp[i])>>]
       /\ e.sum = FoldLeft(LAMBDA s, a : s + Bal(q.bal, a), 0, e.kp)

Start(nroots, ndirs, nk, bal) == [nodes |-> [r \in 1..nroots |-> NoNode], dirs |-> [d \in 1..ndirs |-> [keypers |-> [k \in 1..nk |-> NoKeyper], json |-> NoJson]], bal |-> bal, ids |-> 0]
=============================================================================
