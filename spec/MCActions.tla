----------------------------- MODULE MCActions -----------------------------
EXTENDS Actions, SequencesExt, Json, TLC
CONSTANTS ACTS, FAULTS, DOWNS, WORLDS, EMIT
VARIABLES s, n, subs, cut, hist
mv == <<s, n, subs, cut, hist>>
Msg == [k |-> "msg", hs |-> 0]
Ex(h) == [k |-> IF h % 2 = 0 THEN "cipher" ELSE "plain", hs |-> h]
Skip(h) == [k |-> "skip", hs |-> h]
Acc(h) == [k |-> "accuse", hs |-> h]
App(h) == [k |-> "appeal", hs |-> h]
Eon == [k |-> "eonkey", hs |-> 0]
Batches == <<<<Msg>>, <<Msg, Msg>>, <<Ex(0)>>, <<Ex(0), Ex(1)>>, <<Msg, Skip(2)>>, <<Acc(0), Msg>>, <<App(0), Ex(2)>>, <<Eon, Acc(0)>>>>
Worlds == <<[nx |-> 1, acc |-> {}, app |-> {}], [nx |-> 3, acc |-> {}, app |-> {}], [nx |-> 1, acc |-> {0}, app |-> {}], [nx |-> 1, acc |-> {0}, app |-> {0}]>>
Ops == [i \in DOMAIN Batches |-> [op |-> "decide", acts |-> Batches[i]]] \o
       <<[op |-> "run"], [op |-> "crash"], [op |-> "stop"], [op |-> "start"],
         [op |-> "msg", res |-> "ok"], [op |-> "msg", res |-> "err"], [op |-> "msg", res |-> "mempool"], [op |-> "msg", res |-> "final"], [op |-> "msg", res |-> "lost"],
         [op |-> "tx", res |-> "ok"], [op |-> "tx", res |-> "err"], [op |-> "tx", res |-> "auth"], [op |-> "tx", res |-> "final"], [op |-> "tx", res |-> "lost"]>> \o
       [i \in 1..ACTS |-> [op |-> "mine", id |-> i - 1, ok |-> i % 2 = 1]] \o
       [i \in 1..ACTS |-> [op |-> "pollerr", id |-> i - 1]] \o
       [i \in DOMAIN Worlds |-> [op |-> "world", w |-> Worlds[i]]]
(* both workers take up what is due; the main loop hands over one message at a time and blocks *)
Handed(q, id) == Cardinality({m \in Msgs(q) : m < id}) <= 1
Settle(q) ==
  LET q1 == IF q.up /\ q.om = None /\ Msgs(q) # {} THEN Send(q, Min(Msgs(q))) ELSE q
      q2 == IF q1.up /\ q1.ot = None THEN Drop(q1, MayDrop(q1)) ELSE q1 IN
  IF q2.up /\ q2.ot = None /\ Wanted(q2) # {} /\ Handed(q2, Min(Wanted(q2))) THEN Submit(q2, Min(Wanted(q2))) ELSE q2
FinalOK(a) == a.k \in {"accuse", "appeal"}
Fault(o) == IF ("res" \in DOMAIN o /\ o.res \in {"err", "mempool", "auth"}) \/ o.op = "pollerr" THEN 1 ELSE 0
Lost(o) == "res" \in DOMAIN o /\ o.res = "lost"
Down1(o) == IF o.op \in {"crash", "stop"} \/ Lost(o) THEN 1 ELSE 0
Worse(w) == w.nx >= s.w.nx /\ s.w.acc \subseteq w.acc /\ s.w.app \subseteq w.app /\ w # s.w
Can(o) ==
  /\ n.f + Fault(o) <= FAULTS /\ n.d + Down1(o) <= DOWNS
  /\ CASE o.op = "decide" -> CanDecide(s) /\ Len(s.acts) + Len(o.acts) <= ACTS /\ Cardinality(Msgs(s)) <= 1
                             /\ \A i \in DOMAIN o.acts : o.acts[i].k = "appeal" => o.acts[i].hs \in s.w.acc
       [] o.op = "run" -> s.up /\ s.cur < Len(s.acts) /\ Cardinality(Msgs(s)) <= 1
       [] o.op \in {"crash", "stop"} -> s.up
       [] o.op = "start" -> ~s.up
       [] o.op = "msg" -> s.om # None
       [] o.op = "tx" -> s.ot # None /\ (o.res = "final" => FinalOK(Act(s, s.ot)))
       [] o.op = "mine" -> o.id \in s.fl /\ s.up /\ Handed(s, o.id)
       [] o.op = "pollerr" -> o.id \in s.fl /\ s.up /\ Handed(s, o.id)
       [] OTHER -> n.w < WORLDS /\ Worse(o.w)
After(o) ==
  CASE o.op = "decide" -> Decide(s, o.acts)
    [] o.op = "run" -> Run(s)
    [] o.op \in {"crash", "stop"} \/ Lost(o) -> Down(s)
    [] o.op = "start" -> Up(s)
    [] o.op = "msg" -> Sent(s, o.res)
    [] o.op = "tx" -> Submitted(s, o.res)
    [] o.op = "mine" -> Mined(s, o.id)
    [] o.op = "pollerr" -> s
    [] OTHER -> World(s, o.w)
Sub0 == [i \in 0..(ACTS - 1) |-> 0]
Init == s = Start0 /\ n = [f |-> 0, d |-> 0, w |-> 0] /\ subs = Sub0 /\ cut = {} /\ hist = <<>>
Next == \E i \in DOMAIN Ops :
  LET o == Ops[i] IN
  /\ Can(o)
  /\ s' = Settle(After(o))
  /\ n' = [f |-> n.f + Fault(o), d |-> n.d + Down1(o), w |-> n.w + (IF o.op = "world" THEN 1 ELSE 0)]
  /\ subs' = IF o.op = "tx" /\ o.res \in {"ok", "lost"} THEN [subs EXCEPT ![s.ot] = @ + 1] ELSE subs
  /\ cut' = IF Down1(o) = 1 THEN cut \cup ({s.om, s.ot} \ {None}) ELSE cut
  /\ hist' = Append(hist, i)
MCSpec == Init /\ [][Next]_mv
View == <<s, n, subs, cut>>
Emit == EMIT => PrintT("T " \o ToString(hist') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([x |-> 1]))

Ids == 0..(Len(s.acts) - 1)
(* no action is lost: it is queued, final, or still in the state file to be handed over *)
Accounted == /\ \A i \in Ids : i \in s.pend \cup s.final \/ (i >= s.cur /\ i >= Len(s.acts) - s.sn)
             /\ s.pend \cap s.final = {}
             /\ s.cur <= Len(s.acts) /\ Len(s.acts) - s.sn <= s.cur
(* messages are done in the order they were decided *)
InOrder == \A i, j \in Ids : (IsMsg(s, i) /\ IsMsg(s, j) /\ i < j /\ j \in s.final) => i \in s.final
(* a transaction is submitted again only if the keyper went down without learning of the first submission *)
AtMostOnce == \A i \in Ids : subs[i] > 1 => i \in cut
Tracked == s.fl \subseteq s.pend /\ \A i \in s.fl : subs[i] > 0
(* something is always being done about whatever is queued *)
NeverIdle == s.up /\ s.pend # {} => s.om # None \/ s.ot # None \/ s.fl # {}
NotPointless == [][s'.ot # None /\ s'.ot # s.ot => ~Expired(s', s'.ot)]_mv
NumbersGrow == [][s'.cur >= s.cur]_mv
NeverTwice == \A i \in Ids : subs[i] <= 1 \* witnesses
NeverExpires == ~\E i \in s.final : ~IsMsg(s, i) /\ Expired(s, i) /\ subs[i] = 0
NeverTrackedAfterRestart == ~(s.fl # {} /\ n.d = 1 /\ s.up /\ s.om # None)
NeverResent == ~(n.d >= 1 /\ s.up /\ s.om \in cut)
=============================================================================
