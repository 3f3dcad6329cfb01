---------------------------- MODULE MCKeyperView ----------------------------
EXTENDS KeyperView, SequencesExt, Json
CONSTANTS MAXH, EMIT
VARIABLE hist
mv == <<chain, view, hist>>
Pe(n) == [t |-> "pe", eon |-> n, snd |-> "k1", rc |-> <<"k2">>, ev |-> <<"e2">>]
Sh(n) == [t |-> "sh", eon |-> n, snd |-> "k1", epoch |-> 2, share |-> "s1"]
Eon(n) == [t |-> "eon", eon |-> n, start |-> 2]
Ds(b) == [t |-> "ds", b |-> b, snd |-> "k2", sig |-> "z2"]
Bc == [t |-> "bc", start |-> 1, kp |-> <<"k1", "k2">>, thr |-> 1, idx |-> 1]
Ci == [t |-> "ci", snd |-> "k3", ek |-> "q2"]
NEons == Len(SelectSeq(FlattenSeq(chain), LAMBDA e : e.t = "eon"))
BlockSet == {<<>>, <<Bc, Eon(1), Ds(1)>>, <<Pe(1), Sh(1)>>, <<Sh(1), Ds(1), Ds(2)>>, <<Ci, Eon(2)>>}
BlockSeq == SetToSeq(BlockSet)
Ops == [i \in DOMAIN BlockSeq |-> [op |-> "block", evs |-> BlockSeq[i]]] \o
       [i \in 1..MAXH |-> [op |-> "sync", h |-> i]] \o
       SetToSeq({[op |-> "filter", sh |-> s, bi |-> b] : s \in {2, 3}, b \in {0, 2}}) \o
       <<[op |-> "fail"], [op |-> "restart"]>>
NewEons(evs) == Cardinality({i \in DOMAIN evs : evs[i].t = "eon"})
EonNo(evs) == (CHOOSE i \in DOMAIN evs : evs[i].t = "eon")
Do(o) ==
  CASE o.op = "block" -> /\ Len(chain) < MAXH
                         /\ NewEons(o.evs) = 1 => o.evs[EonNo(o.evs)].eon = NEons + 1
                         /\ Extend(o.evs)
    [] o.op = "sync" -> o.h <= Len(chain) /\ Sync(o.h)
    [] o.op = "filter" -> Filter(o.sh, o.bi)
    [] o.op = "fail" -> Fail
    [] o.op = "restart" -> Restart
Init == chain = <<>> /\ view = EmptyView /\ hist = <<>>
Next == \E i \in DOMAIN Ops : Do(Ops[i]) /\ hist' = Append(hist, i)
MCSpec == Init /\ [][Next]_mv
View == kvars
Emit == EMIT => PrintT("T " \o ToString(hist') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([x |-> 1]))
NeverForgets == view.sh = 0 \/ \A i \in DOMAIN view.eons : view.eons[i].msgs = <<>> \* witness
=============================================================================
