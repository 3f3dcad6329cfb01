----------------------------- MODULE MCPureDKG -----------------------------
(* All participants but the Byzantine one (the last) are honest; messages are broadcast (given to
   all honest participants), evaluations are private.  The Byzantine participant does anything. *)
EXTENDS PureDKG, SequencesExt, Json
CONSTANTS N, T, EMIT
VARIABLES nodes,   \* honest participant -> state
          round,   \* 0: dealing, 1: accusing, 2: apologizing, 3: done
          cast,    \* set of broadcast messages of the Byzantine participant
          dealt,   \* honest receiver -> evaluation the Byzantine one sent
          hist
mv == <<nodes, round, cast, dealt, hist>>
B == N - 1
H == 0..(N-2)
Eon == 1
HC(i) == "h" \o ToString(i)
Right(c) == [id |-> "ok-" \o c, valid |-> TRUE, fits |-> {c}]
Wrong == [id |-> "wrong", valid |-> TRUE, fits |-> {}]
Invalid == [id |-> "invalid", valid |-> FALSE, fits |-> {}]
Vals == {Right("b"), Wrong, Invalid}
PC(d, c, deg) == [t |-> "pc", eon |-> Eon, snd |-> d, c |-> c, deg |-> deg]
PE(d, r, v) == [t |-> "pe", eon |-> Eon, snd |-> d, rc |-> r, v |-> v]
AC(a, d) == [t |-> "ac", eon |-> Eon, accuser |-> a, accused |-> d]
AP(a, d, v) == [t |-> "ap", eon |-> Eon, accuser |-> a, accused |-> d, v |-> v]
ByzCasts == {PC(B, "b", TRUE), PC(B, "b2", FALSE), PC(B, "b3", TRUE)} \cup {AC(B, d) : d \in 0..(N-1)}
            \cup {AP(a, B, v) : a \in 0..(N-1), v \in Vals} \cup {PC(N, "b", TRUE), AC(N, 0)}
RoundOf(m) == CASE m.t = "pc" -> 0 [] m.t = "ac" -> 1 [] m.t = "ap" -> 2
Ops == SetToSeq({[op |-> "cast", msg |-> m] : m \in ByzCasts} \cup
                {[op |-> "send", msg |-> PE(B, r, v)] : r \in H, v \in Vals}) \o <<[op |-> "round"]>>
All(ns, ms) == [i \in H |-> FoldLeft(LAMBDA s, m : Handle(s, m), ns[i], SetToSeq(ms))]
DealAll(ns) ==
  LET d == [i \in H |-> Deal(ns[i], HC(i))]
      ms == {PC(i, HC(i), TRUE) : i \in H} \cup {PE(i, r, Right(HC(i))) : i \in H, r \in H}
  IN  All(d, ms)
AccuseAll(ns) ==
  LET d == [i \in H |-> Accuse(ns[i])] IN All(d, UNION {{AC(i, x) : x \in Accused(ns[i])} : i \in H})
ApologizeAll(ns) ==
  LET d == [i \in H |-> Apologize(ns[i])] IN All(d, UNION {{AP(a, i, Right(HC(i))) : a \in Accusers(ns[i])} : i \in H})
Do(o) ==
  CASE o.op = "cast" -> /\ round = RoundOf(o.msg)
                        /\ Cardinality(cast) < 4 /\ o.msg \notin cast
                        /\ cast' = cast \cup {o.msg}
                        /\ nodes' = [i \in H |-> Handle(nodes[i], o.msg)]
                        /\ UNCHANGED <<round, dealt>>
    [] o.op = "send" -> /\ round = 0 /\ dealt[o.msg.rc].id = "none"
                        /\ dealt' = [dealt EXCEPT ![o.msg.rc] = o.msg.v]
                        /\ nodes' = [nodes EXCEPT ![o.msg.rc] = Handle(@, o.msg)]
                        /\ UNCHANGED <<round, cast>>
    [] o.op = "round" -> /\ round < 3 /\ round' = round + 1
                         /\ nodes' = CASE round = 0 -> AccuseAll(nodes)
                                       [] round = 1 -> ApologizeAll(nodes)
                                       [] round = 2 -> [i \in H |-> Finish(nodes[i])]
                         /\ cast' = {} /\ UNCHANGED dealt
Init == /\ nodes = DealAll([i \in H |-> New(Eon, N, T, i)])
        /\ round = 0 /\ cast = {} /\ dealt = [i \in H |-> None] /\ hist = <<>>
Next == \E i \in DOMAIN Ops : Do(Ops[i]) /\ hist' = Append(hist, i)
MCSpec == Init /\ [][Next]_mv
View == <<nodes, round, cast, dealt>>
Emit == EMIT => PrintT("T " \o ToString(hist') \o (IF nodes' = nodes /\ round' = round THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([n |-> N, t |-> T]))

Done == round = 3
Agreement == Done => \A i, j \in H : Result(nodes[i]) = Result(nodes[j])
HonestIn == Done => \A i, j \in H : ~Corrupt(nodes[i], j)
(* the dealer towards whom something stayed wrong is out for everyone *)
WrongOut == Done => \A i, j \in H :
  (dealt[j].id \in {"none", "invalid"} \/ "b" \notin dealt[j].fits) /\ nodes[j].commits[B] # NoC
  /\ ~(\E k \in DOMAIN nodes[j].apols : k = <<j, B>> /\ nodes[j].commits[B] \in nodes[j].apols[k].fits)
  => Corrupt(nodes[i], B)
Enough == Done /\ N - 1 >= T => \A i \in H : Result(nodes[i]).ok
NeverIn == ~(Done /\ B \in Contributors(nodes[0]))          \* witnesses
NeverJustified == ~(Done /\ B \in Contributors(nodes[0]) /\ dealt[0].id = "wrong")
NeverOut == ~(Done /\ nodes[0].commits[B] # NoC /\ Corrupt(nodes[0], B))
=============================================================================
