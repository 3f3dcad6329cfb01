----------------------------- MODULE MCAnnounce -----------------------------
(* One keyper on a chain whose configs, check-ins and eons come in any order it allows, while the
   main chain adds configs: what it announces, and how often. *)
EXTENDS KeyperDKG, Json
CONSTANTS L, BLOCKS, EMIT
VARIABLES v, m, kk, q, said, last, just, hist
mv == <<v, m, kk, q, said, last, just, hist>>
Me == "k1"
Main == << [start |-> 0, kp |-> <<>>, thr |-> 0, idx |-> 0],
           [start |-> 0, kp |-> <<"k1">>, thr |-> 1, idx |-> 1],
           [start |-> 0, kp |-> <<"k2", "k1">>, thr |-> 2, idx |-> 2],
           [start |-> 1, kp |-> <<"k2">>, thr |-> 1, idx |-> 3] >>
BC(i) == [t |-> "bc", start |-> Main[i+1].start, kp |-> Main[i+1].kp, thr |-> Main[i+1].thr, idx |-> i]
NE(w) == Len(w.eons) + 1
Ops == << [op |-> "main"], [op |-> "decide", k |-> Me], [op |-> "restart", k |-> Me],
          [op |-> "synth", evs |-> <<"bc">>], [op |-> "synth", evs |-> <<"bc", "eon">>], [op |-> "synth", evs |-> <<"ci">>],
          [op |-> "synth", evs |-> <<"eon">>], [op |-> "synth", evs |-> <<"own">>] >>
Pc(a) == [t |-> "pc", eon |-> a.eon, snd |-> Me, c |-> "c" \o ToString(a.eon), deg |-> 0]
Own(e) == "c" \o ToString(e)
Ok(x) == CASE x = "bc" -> Len(v.cfgs) < 3
           [] x = "ci" -> Me \notin v.keys
           [] x = "eon" -> Len(v.cfgs) > 0 /\ Len(v.eons) < 2
           [] x = "own" -> TRUE
Evs(x) == CASE x = "bc" -> <<BC(Len(v.cfgs) + 1)>>
            [] x = "ci" -> <<[t |-> "ci", snd |-> Me]>>
            [] x = "eon" -> <<[t |-> "eon", eon |-> NE(v), start |-> IF Len(v.cfgs) = 0 THEN 0 ELSE v.cfgs[Len(v.cfgs)].start]>>
            [] x = "own" -> q
Do(o) ==
  CASE o.op = "main" -> m < 4 /\ m' = m + 1 /\ just' = FALSE /\ UNCHANGED <<v, kk, q, said, last>>
    [] o.op = "decide" ->
         LET r == Decide(kk, v, SubSeq(Main, 1, m), L, Own) IN
         /\ just' = TRUE /\ kk' = r.k /\ last' = r.acts /\ said' = said \o r.acts
         /\ q' = q \o [i \in DOMAIN SelectSeq(r.acts, LAMBDA a : a.a = "pc") |-> Pc(SelectSeq(r.acts, LAMBDA a : a.a = "pc")[i])]
         /\ UNCHANGED <<v, m>>
    [] o.op = "restart" -> UNCHANGED <<v, m, kk, q, said, last, just>>
    [] o.op = "synth" ->
         /\ v.h < BLOCKS
         /\ \A i \in DOMAIN o.evs : Ok(o.evs[i]) \/ (o.evs[i] = "eon" /\ i = 2 /\ Len(v.eons) < 2)
         /\ v' = SeeBlock(v, FoldLeft(LAMBDA s, x : s \o (IF x = "eon" /\ Len(o.evs) = 2
                    THEN <<[t |-> "eon", eon |-> NE(v), start |-> Main[Len(v.cfgs) + 2].start]>> ELSE Evs(x)), <<>>, o.evs))
         /\ q' = IF o.evs = <<"own">> THEN <<>> ELSE q
         /\ last' = <<>> /\ just' = FALSE /\ UNCHANGED <<m, kk, said>>
Init == v = EmptyView /\ m = 1 /\ kk = NewKeyper(Me) /\ q = <<>> /\ said = <<>> /\ last = <<>> /\ just = FALSE /\ hist = <<>>
Next == \E i \in DOMAIN Ops : Do(Ops[i]) /\ hist' = Append(hist, i)
MCSpec == Init /\ [][Next]_mv
View == <<v, m, kk, q, said, just>>
Emit == EMIT => PrintT("T " \o ToString(hist') \o (IF View' = View \/ Ops[hist'[Len(hist')]].op = "restart" THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([L |-> L, me |-> Me, main |-> Tail(Main)]))

Times(P(_)) == Len(SelectSeq(said, P))
CheckInOnce == Times(LAMBDA a : a.a = "ci") <= 1
ConfigOnce == \A i \in 1..3 : Times(LAMBDA a : a.a = "bc" /\ a.idx = i) <= 1
(* only the config following the newest one on the chain, as the main chain has it *)
ConfigDue == just => \A i \in DOMAIN last : last[i].a = "bc" =>
   last[i].idx = v.cfgs[Len(v.cfgs)].idx + 1 /\ last[i].idx < m /\ last[i].kp = Main[last[i].idx + 1].kp /\ last[i].thr = Main[last[i].idx + 1].thr
(* having just decided, everything due has been said *)
Said == just /\ IsMember(v, Me) =>
   /\ Me \in v.keys \/ Times(LAMBDA a : a.a = "ci") = 1
   /\ v.cfgs[Len(v.cfgs)].idx + 1 < m => kk.lastCfg > v.cfgs[Len(v.cfgs)].idx
   /\ \A i \in DOMAIN v.eons : Has(v.eons[i].kp, Me) /\ PhaseAt(v.h + 1, v.eons[i].h0, L) = Finalized =>
        Times(LAMBDA a : a.a = "key" /\ a.eon = v.eons[i].eon) + Cardinality({j \in DOMAIN kk.dkgs : kk.dkgs[j].eon = v.eons[i].eon /\ ~Result(kk.dkgs[j].pure).ok}) = 1
KeyOnce == \A e \in 1..2 : Times(LAMBDA a : a.a = "key" /\ a.eon = e) <= 1
NeverKey == Times(LAMBDA a : a.a = "key") = 0          \* witnesses
NeverRestartVote == Times(LAMBDA a : a.a = "esv") = 0
NeverThird == kk.lastCfg < 3
=============================================================================
