---------------------------- MODULE MCThreshold ----------------------------
(* Why Crypto's Interpolate is right: shares are values of a polynomial of degree T-1 over a field,
   and the key is its value at 0.  All polynomials, index lists and origins of the shares are tried. *)
EXTENDS Crypto
CONSTANTS P, N, T
Primes == <<P>>
VARIABLES idx, src
Eons == [e \in {0} |-> [n |-> N, t |-> T]]
F == 0..(P - 1)
Polys == [1..T -> F]
Eval(p, x) == FoldRight(LAMBDA c, y : (c + x * y) % P, p, 0)
Interp(ids, vals) == FoldLeft(LAMBDA y, j : (y + vals[j] * Lambda(ids[j], ids, P)) % P, 0, [j \in DOMAIN ids |-> j])
K == 0..(N - 1)
Lists == UNION {[1..k -> K] : k \in 0..(T + 1)}
Init == idx \in Lists /\ src \in [DOMAIN idx -> K]
Next == UNCHANGED <<idx, src>>
MCSpec == Init /\ [][Next]_<<idx, src>>
Vals(p) == [j \in DOMAIN src |-> Eval(p, X(src[j]))]
Rule == VerifyKey(Eons, Interpolate(Eons, idx, [j \in DOMAIN src |-> Share(Eons, 0, src[j], 0)]), 0, 0)
Proper == Len(idx) >= T /\ (\A a, b \in DOMAIN idx : a # b => idx[a] # idx[b]) /\ src = idx
(* what the rule promises holds for every polynomial, and nothing else does; any T shares at their places will do *)
Right == Rule => \A p \in Polys : Interp(idx, Vals(p)) = Eval(p, 0)
Only == ~Rule => \E p \in Polys : Interp(idx, Vals(p)) # Eval(p, 0)
Enough == Proper => Rule
(* fewer than T shares say nothing about the key *)
Secret == Cardinality({src[j] : j \in DOMAIN src}) < T =>
  /\ ~Rule
  /\ \A p \in Polys : \A z \in F : \E r \in Polys : Eval(r, 0) = z /\ \A j \in DOMAIN src : Eval(r, X(src[j])) = Eval(p, X(src[j]))
NeverRule == ~Rule
NeverImproper == Rule => Proper
=============================================================================
