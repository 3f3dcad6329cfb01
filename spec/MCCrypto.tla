------------------------------ MODULE MCCrypto ------------------------------
(* Two eons of three keypers (threshold 2) and two epochs: shares become known, are combined rightly
   and wrongly, and ciphertexts, some of them tampered with, are decrypted with the results. *)
EXTENDS Crypto, TLC, Json
CONSTANTS SHARES, COMBS, DECS, EMIT
VARIABLES known, keys, cts, opened, cnt, ops
mv == <<known, keys, cts, opened, cnt, ops>>
Primes == <<46337, 46327>>
Eons == [e \in {0, 1} |-> [n |-> 3, t |-> 2]]
Targets == <<<<0, 0>>, <<0, 1>>, <<1, 0>>>>
S(i, k) == [k |-> "share", e |-> Targets[k][1], i |-> i, m |-> Targets[k][2]]
Co(idx, sh, thr) == [k |-> "combine", idx |-> idx, sh |-> sh, thr |-> thr]
Sh(i, k) == Share(Eons, Targets[k][1], i, Targets[k][2])
Ops == [x \in 1..9 |-> S((x - 1) % 3, (x - 1) \div 3 + 1)] \o
  <<Co(<<0, 1>>, <<Sh(0, 1), Sh(1, 1)>>, 2), Co(<<2, 1>>, <<Sh(2, 1), Sh(1, 1)>>, 2), Co(<<0, 2>>, <<Sh(0, 2), Sh(2, 2)>>, 2), Co(<<1, 2>>, <<Sh(1, 3), Sh(2, 3)>>, 2),
    Co(<<1, 0>>, <<Sh(0, 1), Sh(1, 1)>>, 2), Co(<<0, 0>>, <<Sh(0, 1), Sh(0, 1)>>, 2), Co(<<0, 1>>, <<Sh(0, 1), Sh(1, 2)>>, 2), Co(<<0, 1>>, <<Sh(0, 1), Sh(1, 3)>>, 2),
    Co(<<0>>, <<Sh(0, 1)>>, 1), Co(<<0>>, <<Sh(0, 1)>>, 2), Co(<<0, 1, 2>>, <<Sh(0, 1), Sh(1, 1), Sh(2, 1)>>, 3), Co(<<0, 1, 2>>, <<Sh(0, 1), Sh(1, 1), Sh(2, 1)>>, 2),
    Co(<<0, 1>>, <<Sh(0, 1)>>, 2)>> \o
  [x \in 1..3 |-> [k |-> "enc", e |-> Targets[x][1], m |-> Targets[x][2]]] \o
  <<[k |-> "dec", mod |-> "none"], [k |-> "dec", mod |-> "c2"], [k |-> "dec", mod |-> "c3"], [k |-> "dec", mod |-> "c1"], [k |-> "dec", mod |-> "drop"], [k |-> "dec", mod |-> "add"]>>
Init == known = {} /\ keys = <<>> /\ cts = <<>> /\ opened = {} /\ cnt = [c |-> 0, d |-> 0] /\ ops = <<>>
Last1(s) == s[Len(s)]
Next == \E x \in DOMAIN Ops :
  LET o == Ops[x] IN
  /\ ops' = Append(ops, x)
  /\ CASE o.k = "share" -> Cardinality(known) < SHARES /\ known' = known \cup {Share(Eons, o.e, o.i, o.m)} /\ UNCHANGED <<keys, cts, opened, cnt>>
       [] o.k = "combine" -> /\ cnt.c < COMBS /\ \A j \in DOMAIN o.sh : o.sh[j] \in known
                             /\ cnt' = [cnt EXCEPT !.c = @ + 1]
                             /\ keys' = IF CombineOK(o.idx, o.sh, o.thr) THEN Append(keys, Interpolate(Eons, o.idx, o.sh)) ELSE keys
                             /\ UNCHANGED <<known, cts, opened>>
       [] o.k = "enc" -> cts = <<>> /\ cts' = <<[e |-> o.e, m |-> o.m]>> /\ UNCHANGED <<known, keys, opened, cnt>>
       [] o.k = "dec" -> /\ cts # <<>> /\ keys # <<>> /\ cnt.d < DECS
                         /\ cnt' = [cnt EXCEPT !.d = @ + 1]
                         /\ opened' = IF Opens(Eons, cts[1], o.mod, Last1(keys)) THEN opened \cup {cts[1]} ELSE opened
                         /\ UNCHANGED <<known, keys, cts>>
MCSpec == Init /\ [][Next]_mv
View == <<known, keys, cts, opened, cnt>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([n |-> 3, t |-> 2]))
(* no key and no message without enough keypers *)
KeyNeedsShares == \A j \in DOMAIN keys : \A x \in 1..3 : LET g == Targets[x] IN VerifyKey(Eons, keys[j], g[1], g[2]) => Cardinality({s \in known : s.e = g[1] /\ s.m = g[2]}) >= Eons[g[1]].t
OpenNeedsShares == \A c \in opened : Cardinality({s \in known : s.e = c.e /\ s.m = c.m}) >= Eons[c.e].t
NeverOpened == opened = {}
NeverJunkTried == ~(cnt.d = DECS /\ opened = {} /\ \A x \in 1..3 : ~VerifyKey(Eons, Last1(keys), Targets[x][1], Targets[x][2]))
=============================================================================
