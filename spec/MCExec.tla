------------------------------- MODULE MCExec -------------------------------
(* One keyper (k1) of three (threshold 2) that holds an eon key share.  k2 is honest but may be
   stopped, k3 does what it likes.  Ops: a main chain event in the current block, a new main chain
   block, a keyper chain block, a decision with some lag on the main chain, a restart.  MENU selects
   what may happen; budgets bound it. *)
EXTENDS KeyperExec, Json
CONSTANTS MENU, HEAD, MEV, SEV, DECS, RESTARTS, STAG, PER, EMIT
VARIABLES main, sh, head, ks, h, res, nm, ns, nr, done, ph, nd, hist
mv == <<main, sh, head, ks, h, res, nm, ns, nr, done, ph, nd, hist>>
Me == "k1"
KP == <<"k1", "k2", "k3">>
T == 2
C1 == [idx |-> 1, sblk |-> 1, sbat |-> 0, span |-> 2, to |-> 4, thr |-> T, kp |-> KP]
CP == [idx |-> 2, sblk |-> 5, sbat |-> 2, span |-> 0, to |-> 4, thr |-> T, kp |-> KP]
C3 == [idx |-> 3, sblk |-> 6, sbat |-> 2, span |-> 1, to |-> 3, thr |-> 1, kp |-> <<"k3", "k1">>]
M1(e) == [op |-> "main", ev |-> e]
S1(e) == [op |-> "side", evs |-> <<e>>]
Both(a, b) == [op |-> "side", evs |-> a.evs \o b.evs]
Share(b, k, ok) == S1([t |-> "share", eon |-> 1, b |-> b, snd |-> k, ok |-> ok])
Sig(b, k, enc, good, ok) == S1([t |-> "sig", b |-> b, snd |-> k, enc |-> enc, good |-> good, ok |-> ok])
EncTx(b, id, good) == M1([t |-> "enc", b |-> b, id |-> id, good |-> good])
Exec(txs) == M1([t |-> "exec", txs |-> txs])
Base == <<[op |-> "block"], [op |-> "decide", lag |-> 0], [op |-> "decide", lag |-> 2]>>
R == <<[op |-> "restart"]>>
Menus ==
  [share |-> Base \o <<Share(0, "k2", TRUE), Share(0, "k3", TRUE), Share(0, "k3", FALSE), Share(1, "k2", TRUE), Share(1, "k3", TRUE),
                       M1([t |-> "cfg", c |-> CP]), M1([t |-> "cfg", c |-> C3]), S1([t |-> "bc", idx |-> 2, sbat |-> 2, kp |-> KP]),
                       S1([t |-> "bc", idx |-> 3, sbat |-> 2, kp |-> <<"k3", "k1">>]), [op |-> "gain"]>> \o R,
   sign |-> Base \o <<EncTx(0, "t2", FALSE), EncTx(1, "t3", TRUE), Share(0, "k2", TRUE), Share(0, "k3", TRUE),
                      Sig(0, "k2", <<"t1">>, <<"t1">>, TRUE), Sig(0, "k3", <<"t1">>, <<"t1">>, TRUE), Sig(0, "k3", <<"t1", "t2">>, <<"t1">>, TRUE), Sig(0, "k2", <<"t1">>, <<"t1">>, FALSE)>> \o R,
   execute |-> Base \o <<M1([t |-> "plain", b |-> 0, id |-> "p1"]), Both(Share(0, "k2", TRUE), Share(0, "k3", TRUE)),
                         Sig(0, "k2", <<"t1">>, <<"t1">>, TRUE), Sig(0, "k3", <<>>, <<>>, TRUE), Sig(0, "k3", <<"t1">>, <<"t1">>, TRUE),
                         Exec(<<"t1">>), M1([t |-> "skip"]), M1([t |-> "pexec"])>> \o R,
   judge |-> Base \o <<Both(Share(0, "k2", TRUE), Share(0, "k3", TRUE)),
                       Sig(0, "k2", <<"t1">>, <<"t1">>, TRUE), Sig(0, "k3", <<"t1">>, <<"t1">>, TRUE),
                       Exec(<<"t1">>), Exec(<<"x">>), Exec(<<>>), M1([t |-> "pexec"]), M1([t |-> "acc", hs |-> 0]), M1([t |-> "appealed", hs |-> 0])>> \o R]
Ops == Menus[MENU]

V == ViewAt(main, head)
(* the contracts' rules *)
Allowed(e) ==
  LET b == V.nx \div 2
      c == CfgOf(V, b) IN
  CASE e.t = "cfg" -> head < e.c.sblk /\ e.c.idx = Len(V.cfgs)
    [] e.t \in {"enc", "plain"} -> LET d == CurCfg(V) IN /\ Active(d) /\ Start(d, e.b) = head
                                     /\ \A i \in DOMAIN main : main[i].ev.t \in {"enc", "plain"} => main[i].ev.id # e.id
    [] e.t = "exec" -> /\ V.nx % 2 = 0 /\ head >= End(c, b) /\ head < End(c, b) + c.to /\ Active(c)
                       /\ Enc(V, b) # <<>> /\ (e.txs = Good(Enc(V, b)) \/ e.txs \in {<<"x">>, <<>>})
    [] e.t = "skip" -> V.nx % 2 = 0 /\ Active(c) /\ (head >= End(c, b) + c.to \/ (head >= End(c, b) /\ Enc(V, b) = <<>>))
    [] e.t = "pexec" -> V.nx % 2 = 1 /\ Active(c) /\ head >= End(c, b)
    [] e.t = "acc" -> e.hs \in DOMAIN V.rec /\ e.hs \notin V.acc
    [] e.t = "appealed" -> e.hs \in V.acc /\ e.hs \notin V.app
(* honest k2 acts on closed batches only, and shares come once (but k3's) *)
AllowedS(e) ==
  CASE e.t = "bc" -> e.idx < Len(V.cfgs) /\ \A i \in DOMAIN sh : sh[i].ev.t = "bc" => sh[i].ev.idx < e.idx
    [] e.t = "share" -> /\ \A i \in DOMAIN sh : sh[i].ev # e
                        /\ e.snd = "k2" => Closed(V, e.b)
    [] e.t = "sig" -> /\ \A i \in DOMAIN sh : sh[i].ev # e
                      /\ e.snd = "k2" /\ e.ok => Closed(V, e.b) /\ e.enc = Ids(Enc(V, e.b)) /\ e.good = Good(Enc(V, e.b))
(* what batch 0 holds from the start *)
First == IF MENU = "share" THEN <<>> ELSE <<[t |-> "enc", b |-> 0, id |-> "t1", good |-> TRUE]>>
Init == /\ main = <<[blk |-> 1, ev |-> [t |-> "cfg", c |-> C1]]>> \o [i \in DOMAIN First |-> [blk |-> 1, ev |-> First[i]]]
        /\ sh = <<[h |-> 1, ev |-> [t |-> "bc", idx |-> 1, sbat |-> 0, kp |-> KP]], [h |-> 1, ev |-> [t |-> "eon", eon |-> 1, start |-> 0, kp |-> KP, thr |-> T]]>>
        /\ head = 1 /\ ks = [New EXCEPT !.held = IF MENU = "share" THEN {} ELSE {1}] /\ h = 1
        /\ res = Idle(New) /\ nm = 0 /\ ns = 0 /\ nr = 0 /\ done = [share |-> {}, hs |-> {}, acc |-> {}, app |-> {}, sig |-> {}, lost |-> {}] /\ ph = 0 /\ nd = 0 /\ hist = <<>>
M == IF sh = <<>> THEN 0 ELSE sh[Len(sh)].h
Quiet == res' = Idle(ks')
HsOf(a) == 2 * a.b + (IF a.t = "plain" THEN 1 ELSE 0)
Record(r, v) == [share |-> done.share \cup {<<a.eon, a.b>> : a \in r.share}, hs |-> done.hs \cup {HsOf(r.exec[i]) : i \in DOMAIN r.exec},
              acc |-> done.acc \cup {a.hs : a \in r.acc}, app |-> done.app \cup {a.hs : a \in r.appeal}, sig |-> done.sig \cup {a.b : a \in r.sig},
              lost |-> done.lost \cup {hs \in DOMAIN v.rec : hs \div 2 \notin DOMAIN r.ks.bt /\ Late(v, hs \div 2)}]
Do(o) ==
  CASE o.op = "block" -> /\ head < HEAD /\ head' = head + 1 /\ UNCHANGED <<main, sh, ks, h, nm, ns, nr, done>> /\ Quiet
    [] o.op = "main" -> /\ nm < MEV /\ Allowed(o.ev) /\ nm' = nm + 1
                        /\ main' = Append(main, [blk |-> head, ev |-> o.ev]) /\ UNCHANGED <<sh, head, ks, h, ns, nr, done>> /\ Quiet
    [] o.op = "side" -> /\ ns < SEV /\ \A i \in DOMAIN o.evs : AllowedS(o.evs[i]) /\ ns' = ns + 1
                        /\ sh' = sh \o [i \in DOMAIN o.evs |-> [h |-> M + 1, ev |-> o.evs[i]]] /\ UNCHANGED <<main, head, ks, h, nm, nr, done>> /\ Quiet
    [] o.op = "gain" -> /\ 1 \notin ks.held /\ ks' = [ks EXCEPT !.held = {1}] /\ UNCHANGED <<main, sh, head, h, nm, ns, nr, done>> /\ Quiet
    [] o.op = "restart" -> /\ nr < RESTARTS /\ nr' = nr + 1 /\ ks.sync > 0 /\ ks' = Restart(ks) /\ UNCHANGED <<main, sh, head, h, nm, ns, done>> /\ Quiet
    [] o.op = "decide" ->
         /\ head - o.lag >= h
         /\ o.lag > 0 => head - o.lag > 0
         /\ LET r == Decide(Me, STAG, main, sh, head - o.lag, M, ks) IN
            /\ res' = r /\ done' = Record(r, ViewAt(main, head - o.lag))
            /\ ks' = Discard(r.ks, ViewAt(main, head - o.lag).nx, M, TRUE)
         /\ h' = head - o.lag /\ UNCHANGED <<main, sh, head, nm, ns, nr>>
(* between decisions: blocks and what is in them, then keyper chain blocks, then the keyper itself;
   within these, operations come in the order of the menu *)
Phase(i) == CASE Ops[i].op = "block" -> 0 [] Ops[i].op = "main" -> i [] Ops[i].op = "side" -> 100 + i
              [] Ops[i].op = "gain" -> 200 [] Ops[i].op = "restart" -> 250 [] Ops[i].op = "decide" -> 300
InTurn(i) == CASE Ops[i].op = "block" -> ph < 100 \/ ph >= 250
               [] Ops[i].op = "main" -> ph < i
               [] Ops[i].op = "decide" -> ph # 300 /\ nd < DECS
               [] Ops[i].op = "restart" -> ph = 300
               [] OTHER -> ph < Phase(i) \/ ph >= 250
Next == \E i \in DOMAIN Ops : /\ InTurn(i) /\ Do(Ops[i]) /\ ph' = Phase(i) /\ hist' = Append(hist, i)
                              /\ nd' = IF Ops[i].op = "decide" THEN nd + 1 ELSE nd
MCSpec == Init /\ [][Next]_mv
View == <<main, sh, head, ks, h, res, nm, ns, nr, done, ph, nd>>
(* behaviours ending in a decision, a few for each kind of outcome *)
Class == LET r == res' q == ks' IN
  <<Cardinality(r.share), Cardinality(r.sig), [i \in DOMAIN r.exec |-> <<r.exec[i].t, IF r.exec[i].t = "skip" THEN 0 ELSE Len(r.exec[i].txs)>>],
    Cardinality(r.appeal), Cardinality(r.acc), Cardinality(q.keys), Cardinality(q.todo), Cardinality(q.unchk), q.ph, q.next,
    [b2 \in DOMAIN q.sgn |-> Cardinality(q.sgn[b2])], nr', Len(main'), head' - h'>>
Emit == (EMIT /\ nd' > nd) =>
  LET n == At(TLCGet(42), Class, 0) IN
  n < PER => TLCSet(42, Upd(TLCGet(42), Class, n + 1)) /\ PrintT("T " \o ToString(hist') \o " 1")
ASSUME TLCSet(42, EmptyF)
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([menu |-> MENU, stag |-> STAG, cfg |-> C1, kp |-> KP, thr |-> T, first |-> First]))

(*------------------------------- what must hold ------------------------------*)
(* the keyper's view at the decision just taken *)
W == ViewAt(main, h)
S == ShAt(sh, M)
TrueEnc(b) == Ids(Enc(V, b))   \* closed batches do not change
TrueGood(b) == Good(Enc(V, b))
ValidSenders(b) == {x.ev.snd : x \in {y \in ToSet(S) : y.ev.t = "share" /\ y.ev.b = b /\ y.ev.ok}}
ValidSigners(b) == {x.ev.snd : x \in {y \in ToSet(S) : y.ev.t = "sig" /\ y.ev.b = b /\ y.ev.ok /\ y.ev.enc = TrueEnc(b) /\ y.ev.good = TrueGood(b)}}
KeyNeedsThreshold == \A k \in ks.keys : Cardinality(ValidSenders(k[2])) >= T
ShareAfterClose == \A a \in res.share : a.b < BatchAt(CurCfg(W), h) /\ h < End(CfgOf(W, a.b), a.b) + CfgOf(W, a.b).to
SignsWhatIsThere == \A a \in res.sig : a.enc = TrueEnc(a.b) /\ a.good = TrueGood(a.b) /\ a.enc # <<>> /\ \E k \in ks.keys : k[2] = a.b
ExecutesAuthorised == \A i \in DOMAIN res.exec : LET a == res.exec[i] IN a.t = "exec" =>
   /\ a.txs = TrueGood(a.b)
   /\ TrueEnc(a.b) # <<>> => Cardinality(ValidSigners(a.b) \cap ToSet(CfgOf(W, a.b).kp)) >= CfgOf(W, a.b).thr
InOrder == \A i \in DOMAIN res.exec : HsOf(res.exec[i]) = W.nx + i - 1
ExecutesAfterEnd == \A i \in DOMAIN res.exec : LET a == res.exec[i] c == CfgOf(W, a.b) IN
   /\ h >= End(c, a.b)
   /\ a.t = "skip" => h >= End(c, a.b) + c.to
   /\ a.t = "exec" => h < End(c, a.b) + c.to
AccusesOnlyWrong == \A a \in res.acc : W.rec[a.hs] # TrueGood(a.hs \div 2) /\ a.hs \notin W.acc
AppealsOnlyRight == \A a \in res.appeal : W.rec[a.hs] = TrueGood(a.hs \div 2) /\ a.hs \in W.acc \ W.app /\ Cardinality(ValidSigners(a.hs \div 2)) >= CfgOf(W, a.hs \div 2).thr
Once == [][/\ \A a \in res'.share : <<a.eon, a.b>> \notin done.share
           /\ \A i \in DOMAIN res'.exec : HsOf(res'.exec[i]) \notin done.hs
           /\ \A a \in res'.acc : a.hs \notin done.acc
           /\ \A a \in res'.appeal : a.hs \notin done.app
           /\ \A a \in res'.sig : a.b \notin done.sig]_mv
(* a wrong execution is accused by somebody, unless the keyper could not decrypt the batch in time *)
WrongIsAccused == nd > 0 =>
   \A hs \in DOMAIN W.rec : hs \div 2 \in DOMAIN ks.bt /\ W.rec[hs] # TrueGood(hs \div 2) => hs \in W.acc \cup done.acc \cup done.lost
NeverShares == res.share = {}                                        \* witnesses
NeverSigns == res.sig = {}
NeverExecutes == ~\E i \in DOMAIN res.exec : res.exec[i].t = "exec" /\ res.exec[i].txs # <<>>
NeverSkips == ~\E i \in DOMAIN res.exec : res.exec[i].t = "skip"
NeverTwo == Len(res.exec) < 2
NeverAccuses == res.acc = {}
NeverAppeals == res.appeal = {}
NeverKeyEarly == \A k \in ks.todo : Closed(W, k[2])
NeverLateJudge == ks.unchk = {}
NeverSecondConfig == ~\E a \in res.share : CfgOf(W, a.b).idx = 3
=============================================================================
