------------------------------ MODULE MCShuffle ------------------------------
(* All sequences of draws for all lengths up to N, one draw a step. *)
EXTENDS Shuffle, TLC
CONSTANT N
VARIABLES n, p, k
mv == <<n, p, k>>
Init == n \in 0..N /\ p = Identity(n) /\ k = n
Next == k > 1 /\ \E j \in 1..k : p' = Swap(p, k, j) /\ k' = k - 1 /\ UNCHANGED n
MCSpec == Init /\ [][Next]_mv
AlwaysOrder == IsOrder(p, n)
(* what has been placed stays, and the number of ways to go on is (k)!: with the ways that led here, every
   order comes from exactly one sequence of draws *)
Draws(m) == IF m > 1 THEN [1..(m - 1) -> 1..m] ELSE {<<>>}
Legal(m) == {d \in Draws(m) : \A i \in 1..(m - 1) : d[i] <= m + 1 - i}
Bijective == k = n => LET L == IF n > 1 THEN Legal(n) ELSE {<<>>} IN
                      Cardinality(L) = Factorial(n) /\ Cardinality({Order(n, d) : d \in L}) = Factorial(n)
Placed == [][\A i \in (k + 1)..n : p'[i] = p[i]]_mv
(* non-vacuity *)
NeverReversed == ~(n = N /\ k <= 1 /\ \A i \in 1..n : p[i] = n + 1 - i)
NeverSame == ~(n = N /\ k <= 1 /\ p = Identity(n))
=============================================================================
