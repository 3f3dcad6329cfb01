------------------------------ MODULE KeyperDKG ------------------------------
(***************************************************************************)
(* How a keyper takes part in the keyper chain: check-in, votes for the    *)
(* configs of the main chain, and driving the key generation of every eon  *)
(* it belongs to, as a function of the events on the chain.  One step      *)
(* (Decide) is taken whenever the keyper has synchronised to a height.     *)
(***************************************************************************)
EXTENDS PureDKG, SequencesExt

(* ------------------------------- the chain ----------------------------- *)
(* A chain is a sequence of blocks, each a sequence of events.  What a
   keyper at height h sees of it: *)
EmptyView == [h |-> 0, keys |-> {}, cfgs |-> <<>>, eons |-> <<>>]
InCharge(cfgs, b) ==
  LET l == SelectSeq(cfgs, LAMBDA c : c.start <= b) IN
  IF l = <<>> THEN [start |-> 0, kp |-> <<>>, thr |-> 0, idx |-> 0] ELSE l[Len(l)]
DkgTypes == {"pc", "pe", "ac", "ap"}
See(v, e, h) ==
  CASE e.t = "ci" -> [v EXCEPT !.keys = @ \cup {e.snd}]
    [] e.t = "bc" -> [v EXCEPT !.cfgs = Append(@, [start |-> e.start, kp |-> e.kp, thr |-> e.thr, idx |-> e.idx])]
    [] e.t = "eon" -> \* the keypers of an eon are those of the config in charge when it starts
         LET c == InCharge(v.cfgs, e.start) IN
         [v EXCEPT !.eons = Append(@, [eon |-> e.eon, start |-> e.start, h0 |-> h, kp |-> c.kp, thr |-> c.thr, evs |-> <<>>])]
    [] e.t \in DkgTypes ->
         [v EXCEPT !.eons = [i \in DOMAIN @ |-> IF @[i].eon = e.eon THEN [@[i] EXCEPT !.evs = Append(@, [h |-> h, e |-> e])] ELSE @[i]]]
    [] OTHER -> v
SeeBlock(v, evs) == [FoldLeft(LAMBDA a, e : See(a, e, v.h + 1), v, evs) EXCEPT !.h = v.h + 1]

Has(s, x) == \E i \in DOMAIN s : s[i] = x
Idx(s, x) == CHOOSE i \in 0..(Len(s) - 1) : s[i + 1] = x
PhaseAt(h, h0, L) ==
  IF h < h0 THEN Off ELSE IF h < h0 + L THEN Dealing ELSE IF h < h0 + 2*L THEN Accusing
  ELSE IF h < h0 + 3*L THEN Apologizing ELSE Finalized

(* ------------------------------- the keyper ---------------------------- *)
NewKeyper(me) == [me |-> me, ci |-> FALSE, lastCfg |-> 0, lastEon |-> 0, sync |-> 0, dkgs |-> <<>>]

(* the messages inside an event, for participant me of eon d *)
PureMsgs(d, e) ==
  IF ~Has(d.kp, e.snd) THEN <<>>
  ELSE LET s == Idx(d.kp, e.snd) IN
  CASE e.t = "pc" -> <<[t |-> "pc", eon |-> e.eon, snd |-> s, c |-> e.c, deg |-> e.deg = d.pure.t - 1]>>
    [] e.t = "pe" -> IF s = d.pure.me THEN <<>> ELSE
         LET mine == SelectSeq([j \in DOMAIN e.rc |-> [rc |-> e.rc[j], v |-> e.v[j]]], LAMBDA x : x.rc = d.kp[d.pure.me + 1] /\ x.v.dec)
         IN  [j \in DOMAIN mine |-> [t |-> "pe", eon |-> e.eon, snd |-> s, rc |-> d.pure.me, v |-> mine[j].v]]
    [] e.t = "ac" -> LET l == SelectSeq(e.acc, LAMBDA x : Has(d.kp, x)) IN
         [j \in DOMAIN l |-> [t |-> "ac", eon |-> e.eon, accuser |-> s, accused |-> Idx(d.kp, l[j])]]
    [] e.t = "ap" -> LET l == SelectSeq([j \in DOMAIN e.acc |-> [who |-> e.acc[j], v |-> e.v[j]]], LAMBDA x : Has(d.kp, x.who)) IN
         [j \in DOMAIN l |-> [t |-> "ap", eon |-> e.eon, accuser |-> Idx(d.kp, l[j].who), accused |-> s, v |-> l[j].v]]

(* takes in the events of the given kind that are new and were made in their phase *)
Absorb(d, e, t, ph, sync, L) ==
  LET new == SelectSeq(e.evs, LAMBDA x : x.e.t = t /\ x.h >= sync /\ PhaseAt(x.h, e.h0, L) = ph) IN
  [d EXCEPT !.pure = FoldLeft(LAMBDA p, x : FoldLeft(Handle, p, PureMsgs(d, x.e)), @, new)]
Name(d, i) == d.kp[i + 1]
Names(d, s) == {Name(d, i) : i \in s}

(* one step of one key generation; own: the name of the commitment should one be made now *)
Drive(d0, e, v, sync, L, own) ==
  LET next == PhaseAt(v.h + 1, e.h0, L)
      p0 == d0.pure
      deals == p0.phase = Off /\ next >= Dealing
      d1 == IF deals THEN [d0 EXCEPT !.pure = Deal(p0, own), !.todo = IF next = Dealing THEN {i \in 0..(p0.n-1) : i # p0.me} ELSE {}] ELSE d0
      a1 == IF deals /\ next = Dealing THEN <<[a |-> "pc", eon |-> e.eon]>> ELSE <<>>
      d2 == Absorb(Absorb(d1, e, "pc", Dealing, sync, L), e, "pe", Dealing, sync, L)
      acc == d2.pure.phase = Dealing /\ next >= Accusing
      a2 == IF acc /\ next = Accusing /\ Accused(d2.pure) # {} THEN <<[a |-> "ac", eon |-> e.eon, who |-> Names(d2, Accused(d2.pure))]>> ELSE <<>>
      d3 == Absorb(IF acc THEN [d2 EXCEPT !.pure = Accuse(@)] ELSE d2, e, "ac", Accusing, sync, L)
      apo == d3.pure.phase = Accusing /\ next >= Apologizing
      a3 == IF apo /\ next = Apologizing /\ Accusers(d3.pure) # {} THEN <<[a |-> "ap", eon |-> e.eon, who |-> Names(d3, Accusers(d3.pure))]>> ELSE <<>>
      d4 == Absorb(IF apo THEN [d3 EXCEPT !.pure = Apologize(@)] ELSE d3, e, "ap", Apologizing, sync, L)
      fin == d4.pure.phase = Apologizing /\ next >= Finalized
      d5 == IF fin THEN [d4 EXCEPT !.pure = Finish(@)] ELSE d4
      res == Result(d5.pure)
      a4 == IF ~fin THEN <<>>
            ELSE IF res.ok THEN <<[a |-> "key", eon |-> e.eon, start |-> d5.start, me |-> d5.pure.me]>>
            ELSE <<[a |-> "esv", start |-> d5.start]>>
      \* evaluations go out as soon as the receiver's encryption key is known, while dealing lasts
      rc == IF d5.pure.phase > Dealing THEN {} ELSE {i \in d5.todo : Name(d5, i) \in v.keys}
      a5 == IF rc = {} THEN <<>> ELSE <<[a |-> "pe", eon |-> e.eon, who |-> Names(d5, rc)]>>
      d6 == [d5 EXCEPT !.todo = IF d5.pure.phase > Dealing THEN {} ELSE @ \ rc]
  IN  [d |-> d6, acts |-> a1 \o a2 \o a3 \o a4 \o a5]

IsMember(v, me) == \E i \in DOMAIN v.cfgs : Has(v.cfgs[i].kp, me)
(* main: the configs of the main chain as the keyper sees them, main[1] being the one with index 0.
   own(eon): name of the commitment should one be made for that eon now. *)
Decide(k, v, main, L, own(_)) ==
  IF ~IsMember(v, k.me) THEN [k |-> k, acts |-> <<>>]
  ELSE
  LET ci == ~k.ci /\ k.me \notin v.keys
      idx == v.cfgs[Len(v.cfgs)].idx + 1
      bc == idx > k.lastCfg /\ idx < Len(main)
      started == SelectSeq(v.eons, LAMBDA e : e.eon > k.lastEon)
      joined == SelectSeq(started, LAMBDA e : Has(e.kp, k.me))
      new == [j \in DOMAIN joined |->
                LET e == joined[j] IN [eon |-> e.eon, start |-> e.start, kp |-> e.kp, todo |-> {},
                                       pure |-> New(e.eon, Len(e.kp), e.thr, Idx(e.kp, k.me))]]
      all == k.dkgs \o new
      EonOf(d) == LET i == CHOOSE i \in DOMAIN v.eons : v.eons[i].eon = d.eon IN v.eons[i]
      driven == [j \in DOMAIN all |-> IF all[j].pure.phase = Finalized THEN [d |-> all[j], acts |-> <<>>]
                                      ELSE Drive(all[j], EonOf(all[j]), v, k.sync, L, own(all[j].eon))]
  IN  [k |-> [k EXCEPT !.ci = @ \/ ci, !.lastCfg = IF bc THEN idx ELSE @,
                       !.lastEon = IF started = <<>> THEN @ ELSE started[Len(started)].eon,
                       !.dkgs = [j \in DOMAIN driven |-> driven[j].d], !.sync = v.h + 1],
       acts |-> (IF ci THEN <<[a |-> "ci"]>> ELSE <<>>) \o
                (IF bc THEN <<[a |-> "bc", idx |-> idx, start |-> main[idx + 1].start, kp |-> main[idx + 1].kp, thr |-> main[idx + 1].thr]>> ELSE <<>>) \o
                FoldLeft(LAMBDA s, x : s \o x.acts, <<>>, driven)]
=============================================================================
