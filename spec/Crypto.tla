------------------------------- MODULE Crypto -------------------------------
(* Threshold encryption, symbolically.  Eon e has eons[e].n keypers and threshold eons[e].t.
   A share is [e, i, m, c]: c times keyper i's share for epoch m of eon e; e < 0 stands for a point
   that has nothing to do with any share.
   Interpolation is linear, and keyper i's share is a polynomial of degree t-1 at i+1 (times the epoch):
   what comes out is determined by the moments of the weights each (eon, epoch) gets.  They are
   computed modulo primes Ps; a key is the function from (eon, epoch) to its moments that are not zero. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Ps
Thr(eons, e) == IF e < 0 THEN 1 ELSE eons[e].t
Share(eons, e, i, m) == [e |-> e, i |-> IF Thr(eons, e) = 1 THEN 0 ELSE i, m |-> m, c |-> 1]
Times(s, c) == IF s.c * c = 0 THEN [e |-> 0, i |-> 0, m |-> 0, c |-> 0] ELSE [s EXCEPT !.c = @ * c]
Foreign(k) == [e |-> -k, i |-> 0, m |-> 0, c |-> 1]

X(i) == i + 1
RECURSIVE Pow(_, _, _)
Pow(x, k, p) == IF k = 0 THEN 1 ELSE LET h == Pow(x, k \div 2, p) IN IF k % 2 = 0 THEN (h * h) % p ELSE (((h * h) % p) * x) % p
Inv(x, p) == Pow(x % p, p - 2, p)
Lambda(i, ids, p) == FoldLeft(LAMBDA a, k : IF k = i THEN a ELSE (((a * X(k)) % p) * Inv(X(k) - X(i) + p, p)) % p, 1, ids)
Group(s) == <<s.e, s.m>>
Moments(eons, idx, sh, g) ==
  [a \in 1..Len(Ps) |-> LET p == Ps[a] IN [k \in 1..Thr(eons, g[1]) |->
    FoldLeft(LAMBDA x, j : IF Group(sh[j]) = g THEN (x + ((Lambda(idx[j], idx, p) * (sh[j].c % p)) % p) * Pow(X(sh[j].i), k - 1, p)) % p ELSE x, 0, [j \in DOMAIN idx |-> j])]]
Zero(m) == \A a \in DOMAIN m : \A k \in DOMAIN m[a] : m[a][k] = 0
Interpolate(eons, idx, sh) ==
  LET G == {g \in {Group(sh[j]) : j \in {x \in DOMAIN sh : sh[x].c # 0}} : ~Zero(Moments(eons, idx, sh, g))} IN
  [g \in G |-> Moments(eons, idx, sh, g)]
(* the key of eon e for epoch m: weight 1 on the polynomial's constant *)
Key(eons, e, m) == [g \in {<<e, m>>} |-> [a \in 1..Len(Ps) |-> [k \in 1..eons[e].t |-> IF k = 1 THEN 1 ELSE 0]]]
CombineOK(idx, sh, thr) == Len(idx) = Len(sh) /\ Len(idx) = thr
VerifyShare(eons, sh, e, i, m) == sh = Share(eons, e, i, m)
VerifyKey(eons, key, e, m) == key = Key(eons, e, m)
Blocks(len) == len \div 32 + 1          \* padding always adds something
(* a ciphertext c is [e, m, ...]; mod says whether it was tampered with *)
Opens(eons, c, mod, key) == mod = "none" /\ key = Key(eons, c.e, c.m)
=============================================================================
