------------------------------ MODULE Replicas ------------------------------
(***************************************************************************)
(* Replicas of the keyper-chain application executing the same blocks.     *)
(* Every replica may be slow, see its own mempool traffic, save its state  *)
(* at any commit (or fail to), and stop anywhere; after a stop it resumes  *)
(* from what it last saved and is given the following blocks again.        *)
(*                                                                         *)
(* `resp' is the response history of the CHAIN: the digest of the response *)
(* to step i of block h, fixed by whoever executes it first.  Determinism  *)
(* and crash safety say that no replica, at no time, may answer otherwise. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES resp,   \* <<h, i>> -> digest
          rep     \* r -> [h, pos, ph, saved]; ph: "commit" (between blocks), "block", "ended"
rvars == <<resp, rep>>

Fresh == [h |-> 0, pos |-> 0, ph |-> "commit", saved |-> 0]
PutR(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* the only digest the chain allows for step i of block h; d itself if nobody executed it yet *)
Allowed(h, i, d) == IF <<h, i>> \in DOMAIN resp THEN resp[<<h, i>>] ELSE d

CanExec(r, h, i) == /\ rep[r].ph \in {"commit", "block"} /\ h = rep[r].h + 1
                    /\ i = (IF rep[r].ph = "commit" THEN 1 ELSE rep[r].pos + 1)
Exec(r, h, i, d) ==
  /\ CanExec(r, h, i)
  /\ resp' = PutR(resp, <<h, i>>, Allowed(h, i, d))
  /\ rep' = [rep EXCEPT ![r].ph = "block", ![r].pos = i]
CanEnd(r, h) == rep[r].ph \in {"commit", "block"} /\ h = rep[r].h + 1
End(r, h, d) ==
  /\ CanEnd(r, h)
  /\ resp' = PutR(resp, <<h, 0>>, Allowed(h, 0, d))
  /\ rep' = [rep EXCEPT ![r].ph = "ended", ![r].pos = 0, ![r].h = h]
CanCommit(r) == rep[r].ph = "ended"
Commit(r, save) ==
  /\ CanCommit(r)
  /\ rep' = [rep EXCEPT ![r].ph = "commit", ![r].saved = IF save = "ok" THEN rep[r].h ELSE @]
  /\ UNCHANGED resp
(* mempool admission right after the commit of block h is a function of h as well *)
Probe(r, d) ==
  /\ rep[r].ph = "commit"
  /\ resp' = PutR(resp, <<rep[r].h, 999999>>, Allowed(rep[r].h, 999999, d))
  /\ UNCHANGED rep
Noise(r) == UNCHANGED rvars
Crash(r) == /\ rep' = [rep EXCEPT ![r] = [h |-> rep[r].saved, pos |-> 0, ph |-> "commit", saved |-> rep[r].saved]]
            /\ UNCHANGED resp

(* a replica resumes exactly at a block boundary it durably reached, never ahead of the chain *)
SavedBehind == \A r \in DOMAIN rep : rep[r].saved <= rep[r].h
SavedWasEnded == \A r \in DOMAIN rep : rep[r].saved > 0 => <<rep[r].saved, 0>> \in DOMAIN resp
=============================================================================
