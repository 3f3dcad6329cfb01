------------------------------- MODULE Shuffle -------------------------------
(* The order of a batch's transactions.  Whoever knows the epoch key can compute it, nobody can before:
   the order is a function of the key and the number of transactions alone, and over the keys every order
   is about as likely as any other.  Fisher and Yates' algorithm turns draws into an order; MCShuffle shows
   that this loses nothing: n! possible sequences of draws give n! orders. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Identity(n) == [i \in 1..n |-> i]
Swap(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
IsOrder(p, n) == Len(p) = n /\ {p[i] : i \in DOMAIN p} = 1..n
(* draw k (for position n, n - 1, .., 2) picks one of the positions not beyond it *)
Order(n, draws) == FoldLeft(LAMBDA p, k : Swap(p, n + 1 - k, draws[k]), Identity(n), [k \in 1..(IF n > 1 THEN n - 1 ELSE 0) |-> k])
Factorial(n) == FoldLeft(LAMBDA a, k : a * k, 1, Identity(n))
(* what is expected of `keys` unrelated keys; far from what chance alone does (more than five deviations) *)
SpreadOK(n, keys, count, orders, most) ==
  LET mean == keys \div n
      each == IF n <= 4 THEN keys \div Factorial(n) ELSE 0
  IN /\ \A i, j \in 1..n : count[i][j] * 5 >= mean /\ count[i][j] <= 3 * mean      (* every transaction at every position *)
     /\ n <= 4 => orders = Factorial(n) /\ most <= 3 * each                          (* every order *)
     /\ n > 4 => orders >= keys - 3 /\ most <= 2                                     (* no two keys give the same *)
(* Go's generator has 2^31 - 1 states to start from: of k keys about k^2 / 2^32 share their order with another *)
ManyOK(keys, orders) == keys - orders <= ((keys \div 1000) * (keys \div 1000)) \div 900
=============================================================================
