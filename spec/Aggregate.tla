----------------------------- MODULE Aggregate -----------------------------
(* Aggregate signatures, symbolically: a public key is an integer combination of independent keys
   (bases), a signature one of (base, message) pairs.  Adding is adding the coefficients. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
None == [x \in {} |-> 0]
Norm(f) == [x \in {y \in DOMAIN f : f[y] # 0} |-> f[x]]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Plus(f, g) == Norm([x \in DOMAIN f \cup DOMAIN g |-> At(f, x) + At(g, x)])
Scale(f, c) == Norm([x \in DOMAIN f |-> c * f[x]])
Total(fs) == FoldLeft(Plus, None, fs)
Base(b) == [x \in {b} |-> 1]
Sign(key, m) == [x \in {<<b, m>> : b \in DOMAIN key} |-> key[x[1]]]
Verify(sig, key, m) == sig = Sign(key, m)
=============================================================================
