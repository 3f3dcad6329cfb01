-------------------------- MODULE TraceKeyperExec --------------------------
(* Validates recorded decisions of real keypers.  An operation's out carries the actions decided on:
   share: [eon, b, ok], sig: [b, enc, good, ok], exec: sequence of [t, b, txs, ok], appeal: [hs, ok],
   acc: [hs, ok], keys: the epoch keys held, [eon, b, ok] *)
EXTENDS KeyperExec, Json, IOUtils
VARIABLES l, skip, main, sh, kps
tvars == <<l, skip, main, sh, kps>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Flat(blk, evs) == [i \in DOMAIN evs |-> [blk |-> blk, ev |-> evs[i]]]
FlatS(h, evs) == [i \in DOMAIN evs |-> [h |-> h, ev |-> evs[i]]]
K(e) == kps[e.k]
Res(e) == IF e.synced THEN Decide(e.k, K(e).stag, main, sh, e.h, e.m, K(e).ks) ELSE Idle(K(e).ks)
Strip(r) == [x \in DOMAIN r \ {"ok"} |-> r[x]]
Same(out, want) == /\ \A i \in DOMAIN out : out[i].ok
                   /\ Len(out) = Cardinality(want)
                   /\ {Strip(out[i]) : i \in DOMAIN out} = want
SameSeq(out, want) == /\ Len(out) = Len(want)
                      /\ \A i \in DOMAIN out : out[i].ok /\ Strip(out[i]) = want[i]
Tag(t, S) == {[x \in DOMAIN r \ {"t"} |-> r[x]] : r \in S}
Keys(ks) == {[eon |-> k[1], b |-> k[2]] : k \in ks.keys}
Why(e, r) ==
  IF "crash" \in DOMAIN e.out THEN {"crash"} ELSE
  (IF Same(e.out.keys, Keys(r.ks)) THEN {} ELSE {"epoch key"}) \cup
  (IF Same(e.out.share, Tag("share", r.share)) THEN {} ELSE {"key share"}) \cup
  (IF Same(e.out.sig, Tag("sig", r.sig)) THEN {} ELSE {"signature"}) \cup
  (IF SameSeq(e.out.exec, r.exec) THEN {} ELSE {"execution"}) \cup
  (IF Same(e.out.appeal, Tag("appeal", r.appeal)) THEN {} ELSE {"appeal"}) \cup
  (IF Same(e.out.acc, Tag("acc", r.acc)) THEN {} ELSE {"accusation"})
TInit == l = 1 /\ skip = TRUE /\ main = <<>> /\ sh = <<>> /\ kps = EmptyF
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "reset" -> /\ skip' = FALSE /\ main' = <<>> /\ sh' = <<>>
                            /\ kps' = [k \in DOMAIN e.kps |-> [stag |-> e.kps[k], ks |-> New]]
       [] skip /\ e.op # "reset" -> UNCHANGED <<skip, main, sh, kps>>
       [] ~skip /\ e.op = "mblock" -> main' = main \o Flat(e.blk, e.evs) /\ UNCHANGED <<skip, sh, kps>>
       [] ~skip /\ e.op = "sblock" -> sh' = sh \o FlatS(e.h, e.evs) /\ UNCHANGED <<skip, main, kps>>
       [] ~skip /\ e.op = "gain" -> /\ kps' = [kps EXCEPT ![e.k].ks.held = @ \cup {e.eon}] /\ UNCHANGED <<skip, main, sh>>
       [] ~skip /\ e.op = "restart" ->
            /\ kps' = [kps EXCEPT ![e.k].ks = Restart(@)]
            /\ UNCHANGED <<main, sh>>
            /\ skip' = ~e.out.ok
            /\ ~e.out.ok => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> {"restart"}, expected |-> [ok |-> TRUE], got |-> e.out]))
       [] ~skip /\ e.op = "decide" ->
            LET r == Res(e)
                bad == Why(e, r) IN
            /\ kps' = [kps EXCEPT ![e.k].ks = Discard(r.ks, ViewAt(main, e.h).nx, e.m, e.filter)]
            /\ skip' = (bad # {})
            /\ UNCHANGED <<main, sh>>
            /\ bad # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> bad,
                 expected |-> [share |-> r.share, sig |-> r.sig, exec |-> r.exec, appeal |-> r.appeal, acc |-> r.acc, keys |-> Keys(r.ks)], got |-> e.out]))
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
