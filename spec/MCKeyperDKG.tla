---------------------------- MODULE MCKeyperDKG ----------------------------
(* Two honest keypers (k1, k2) and a Byzantine one (k3) run one key generation over the chain.
   Every tick a block is made of the honest keypers' outgoing messages (one of them may be held
   back) and at most one Byzantine message, then the honest keypers synchronise and decide (one of
   them may miss the block).  Misses, delays and Byzantine messages are limited by budgets. *)
EXTENDS KeyperDKG, Json
CONSTANTS L, T, LATE, BYZ, EMIT
VARIABLES v, ks, out, last, used, late, nbyz, timely, count, hist
mv == <<v, ks, out, last, used, late, nbyz, timely, count, hist>>
H == {"k1", "k2"}  B == "k3"
KP == <<"k1", "k2", "k3">>
Main == <<[start |-> 0, kp |-> <<>>, thr |-> 0, idx |-> 0], [start |-> 0, kp |-> KP, thr |-> T, idx |-> 1]>>
Right(c) == [id |-> "ok" \o c, valid |-> TRUE, dec |-> TRUE, fits |-> {c}]
Wrong == [id |-> "wrong", valid |-> TRUE, dec |-> TRUE, fits |-> {}]
Big == [id |-> "big", valid |-> FALSE, dec |-> TRUE, fits |-> {}]
Garbage == [id |-> "x", valid |-> FALSE, dec |-> FALSE, fits |-> {}]
C(k) == "c" \o k
BV(x) == CASE x = "right" -> Right(C(B)) [] x = "wrong" -> Wrong [] x = "big" -> Big [] x = "garbage" -> Garbage
None0 == [t |-> "none"]
BM(t, who, w) == [t |-> t, snd |-> B, who |-> who, v |-> w]
Menu == << None0, BM("pc", <<>>, <<>>),
           BM("pe", <<"k1", "k2">>, <<"right", "right">>), BM("pe", <<"k1", "k2">>, <<"right", "wrong">>),
           BM("pe", <<"k1", "k2">>, <<"garbage", "big">>), BM("pe", <<"k2">>, <<"right">>),
           BM("ac", <<"k1">>, <<>>), BM("ac", <<"k2", "k1">>, <<>>),
           BM("ap", <<"k1">>, <<"right">>), BM("ap", <<"k2">>, <<"right">>), BM("ap", <<"k1", "k2">>, <<"right", "right">>),
           BM("ap", <<"k2", "k1">>, <<"wrong", "right">>) >>
ByzEvent(m) == CASE m.t = "pc" -> [t |-> "pc", eon |-> 1, snd |-> B, c |-> C(B), deg |-> T - 1]
                 [] m.t = "pe" -> [t |-> "pe", eon |-> 1, snd |-> B, rc |-> m.who, v |-> [i \in DOMAIN m.who |-> BV(m.v[i])]]
                 [] m.t = "ac" -> [t |-> "ac", eon |-> 1, snd |-> B, acc |-> m.who]
                 [] m.t = "ap" -> [t |-> "ap", eon |-> 1, snd |-> B, acc |-> m.who, v |-> [i \in DOMAIN m.who |-> BV(m.v[i])]]
Subs == <<H, {"k1"}, {"k2"}>>
Ops == SetToSeq({[op |-> "tick", from |-> Subs[i], byz |-> Menu[j], dec |-> Subs[k]] : i \in 1..3, j \in DOMAIN Menu, k \in 1..3})

(* the events of an honest keyper's actions *)
Seqd(s) == SetToSeq(s)
Published(me, a) ==
  CASE a.a = "pc" -> <<[t |-> "pc", eon |-> 1, snd |-> me, c |-> C(me), deg |-> T - 1]>>
    [] a.a = "pe" -> <<[t |-> "pe", eon |-> 1, snd |-> me, rc |-> Seqd(a.who), v |-> [i \in DOMAIN Seqd(a.who) |-> Right(C(me))]]>>
    [] a.a = "ac" -> <<[t |-> "ac", eon |-> 1, snd |-> me, acc |-> Seqd(a.who)]>>
    [] a.a = "ap" -> <<[t |-> "ap", eon |-> 1, snd |-> me, acc |-> Seqd(a.who), v |-> [i \in DOMAIN Seqd(a.who) |-> Right(C(me))]]>>
    [] OTHER -> <<>>
PhaseOf(t) == CASE t \in {"pc", "pe"} -> Dealing [] t = "ac" -> Accusing [] t = "ap" -> Apologizing
Genesis == << [t |-> "bc", start |-> 0, kp |-> KP, thr |-> T, idx |-> 1], [t |-> "eon", eon |-> 1, start |-> 0],
              [t |-> "ci", snd |-> "k1"], [t |-> "ci", snd |-> "k2"], [t |-> "ci", snd |-> "k3"] >>
First(k, w) == Decide(k, w, Main, L, LAMBDA e : C(k.me))
V0 == SeeBlock(EmptyView, Genesis)
(* both have taken part from the start *)
R0 == [k \in H |-> First(NewKeyper(k), V0)]
Queue(me, acts) == FoldLeft(LAMBDA s, a : s \o Published(me, a), <<>>, acts)
Tally(c, acts) == FoldLeft(LAMBDA s, a : [s EXCEPT ![a.a] = @ + 1], c, acts)
Zero == [a \in {"pc", "pe", "ac", "ap", "key", "esv", "ci", "bc"} |-> 0]
Init == /\ v = V0 /\ ks = [k \in H |-> R0[k].k] /\ out = [k \in H |-> Queue(k, R0[k].acts)]
        /\ last = [k \in H |-> R0[k].acts]
        /\ used = {} /\ late = 0 /\ nbyz = 0 /\ timely = TRUE /\ count = [k \in H |-> Tally(Zero, R0[k].acts)] /\ hist = <<>>
Fresh(m) == /\ m.t \in {"pc", "ac", "ap"} => m.t \notin used
            /\ m.t = "pe" => used \cap {m.who[i] : i \in DOMAIN m.who} = {}
Late(o) == Cardinality({k \in H : k \notin o.from /\ out[k] # <<>>}) + Cardinality(H \ o.dec)
Do(o) ==
  /\ v.h < 3 * L + 2
  /\ o.byz.t # "none" => nbyz < BYZ /\ Fresh(o.byz)
  /\ \A k \in H \ o.from : out[k] # <<>>
  /\ late + Late(o) <= LATE
  /\ LET evs == FoldLeft(LAMBDA s, k : IF k \in o.from THEN s \o out[k] ELSE s, <<>>, <<"k1", "k2">>)
                \o (IF o.byz.t = "none" THEN <<>> ELSE <<ByzEvent(o.byz)>>)
         w == SeeBlock(v, evs)
         r == [k \in H |-> IF k \in o.dec THEN First(ks[k], w) ELSE [k |-> ks[k], acts |-> <<>>]]
     IN  /\ v' = w
         /\ ks' = [k \in H |-> r[k].k]
         /\ out' = [k \in H |-> (IF k \in o.from THEN <<>> ELSE out[k]) \o Queue(k, r[k].acts)]
         /\ last' = [k \in H |-> r[k].acts]
         /\ timely' = (timely /\ \A k \in o.from : \A i \in DOMAIN out[k] : PhaseAt(w.h, 1, L) = PhaseOf(out[k][i].t))
         /\ count' = [k \in H |-> Tally(count[k], r[k].acts)]
  /\ used' = used \cup (CASE o.byz.t = "none" -> {} [] o.byz.t = "pe" -> {o.byz.who[i] : i \in DOMAIN o.byz.who} [] OTHER -> {o.byz.t})
  /\ late' = late + Late(o) /\ nbyz' = nbyz + (IF o.byz.t = "none" THEN 0 ELSE 1)
Next == \E i \in DOMAIN Ops : Do(Ops[i]) /\ hist' = Append(hist, i)
MCSpec == Init /\ [][Next]_mv
View == <<v, ks, out, used, late, nbyz, timely, count>>
Emit == EMIT => PrintT("T " \o ToString(hist') \o " 1")
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([kp |-> KP, honest |-> <<"k1", "k2">>, byz |-> <<B>>, t |-> T, L |-> L]))

P(k) == ks[k].dkgs[1].pure
Done == \A k \in H : P(k).phase = Finalized
(* all honest messages were on the chain in their phase, and everybody made them *)
InTime == timely /\ \A k \in H : count[k]["pc"] = 1 /\ out[k] = <<>> /\
          \A d \in 0..2 : ~Fits(P(k), d, P(k).evals[d]) /\ d # P(k).me => count[k]["ac"] = 1
Agreement == Done => \A i, j \in H : Result(P(i)).ok /\ Result(P(j)).ok => Result(P(i)).key = Result(P(j)).key
SameOutcome == Done /\ InTime /\ (\A k \in H : Accusers(P(k)) # {} => count[k]["ap"] = 1) => Result(P("k1")) = Result(P("k2"))
HonestIn == Done /\ InTime /\ (\A k \in H : Accusers(P(k)) # {} => count[k]["ap"] = 1)
            => \A i \in H, j \in {0, 1} : ~Corrupt(P(i), j)
AtMostOnce == \A k \in H : (\A a \in {"pc", "pe", "ac", "ap"} : count[k][a] <= 1) /\ count[k]["key"] + count[k]["esv"] <= 1
OnlyInPhase == \A k \in H : \A i \in DOMAIN last[k] :
   last[k][i].a \in {"pc", "pe", "ac", "ap"} => PhaseAt(v.h + 1, 1, L) = PhaseOf(last[k][i].a)
(* someone who sent the right evaluation in time is not accused *)
FairAccusation == \A k \in H : \A i \in DOMAIN last[k] : last[k][i].a = "ac" =>
   \A x \in last[k][i].who : ~Fits(P(k), Idx(KP, x), P(k).evals[Idx(KP, x)])
NeverFail == ~(Done /\ ~Result(P("k1")).ok)                        \* witnesses
NeverSplit == ~(Done /\ Result(P("k1")).ok # Result(P("k2")).ok)
NeverWithByz == ~(Done /\ Cardinality(Contributors(P("k1"))) = 3)
NeverJustified == ~(Done /\ 2 \in Contributors(P("k1")) /\ <<0, 2>> \in P("k1").accs)
=============================================================================
