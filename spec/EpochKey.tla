------------------------------ MODULE EpochKey ------------------------------
(* Putting epoch keys together from the shares of the N keypers of an eon: a valid share counts once
   per sender and epoch, and T of them make the key.  got: senders counted, by epoch. *)
EXTENDS Integers, FiniteSets
Get(got, e) == IF e \in DOMAIN got THEN got[e] ELSE {}
Have(got, t) == {e \in DOMAIN got : Cardinality(got[e]) >= t}
Take(got, t, e, snd, ok) ==
  IF ~ok \/ e \in Have(got, t) THEN got
  ELSE [x \in DOMAIN got \cup {e} |-> IF x = e THEN Get(got, e) \cup {snd} ELSE got[x]]
=============================================================================
