----------------------------- MODULE KeyperExec -----------------------------
(***************************************************************************)
(* What a keyper does once it holds eon keys: it releases epoch key shares *)
(* for closed batches, puts epoch keys together, decrypts and signs        *)
(* batches, executes half steps, accuses wrong executions and appeals      *)
(* wrong accusations.  A keyper sees a prefix of the main chain and a      *)
(* prefix of the keyper chain; its decisions are a function of these and   *)
(* of its own past.                                                        *)
(*   main chain: sequence of [blk, ev], ev one of                          *)
(*     cfg(c) enc(b,id,good) plain(b,id) exec(txs) skip jump(n) pexec      *)
(*     acc(hs) appealed(hs)                                                *)
(*   keyper chain: sequence of [h, ev], ev one of                          *)
(*     bc(idx,sbat,kp) eon(eon,start,kp,thr) share(eon,b,snd,ok)           *)
(*     sig(b,snd,enc,good,ok)                                              *)
(* Batch contents are sequences of transaction ids; a config with span 0   *)
(* is a pause.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxParallel == 10
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
EmptyF == [x \in {} |-> 0]

(*------------------------- the main chain as seen at a block -------------------------*)
Guard == [idx |-> 0, sblk |-> 0, sbat |-> 0, span |-> 0, to |-> 0, thr |-> 0, kp |-> <<>>]
V0 == [head |-> 0, cfgs |-> <<Guard>>, enc |-> EmptyF, plain |-> EmptyF, nx |-> 0, rec |-> EmptyF,
       acc |-> {}, app |-> {}]
SeeMain(v, e) ==
  CASE e.t = "cfg" -> [v EXCEPT !.cfgs = Append(@, e.c)]
    [] e.t = "enc" -> [v EXCEPT !.enc = Upd(@, e.b, Append(At(@, e.b, <<>>), [id |-> e.id, good |-> e.good]))]
    [] e.t = "plain" -> [v EXCEPT !.plain = Upd(@, e.b, Append(At(@, e.b, <<>>), e.id))]
    [] e.t = "exec" -> [v EXCEPT !.rec = Upd(@, v.nx, e.txs), !.nx = @ + 1]
    [] e.t \in {"skip", "pexec"} -> [v EXCEPT !.nx = @ + 1]
    [] e.t = "jump" -> [v EXCEPT !.nx = e.n]
    [] e.t = "acc" -> [v EXCEPT !.acc = @ \cup {e.hs}]
    [] e.t = "appealed" -> [v EXCEPT !.app = @ \cup {e.hs}]
ViewAt(main, head) ==
  LET evs == SelectSeq(main, LAMBDA x : x.blk <= head)
  IN  [FoldLeft(LAMBDA v, x : SeeMain(v, x.ev), V0, evs) EXCEPT !.head = head]
LastSuch(seq, P(_)) == LET S == {i \in DOMAIN seq : P(seq[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
CfgOf(v, b) == v.cfgs[LastSuch(v.cfgs, LAMBDA c : c.sbat <= b)]
CurCfg(v) == v.cfgs[LastSuch(v.cfgs, LAMBDA c : c.sblk <= v.head)]
Active(c) == c.span > 0
Start(c, b) == c.sblk + (b - c.sbat) * c.span
End(c, b) == Start(c, b) + c.span
BatchAt(c, blk) == IF c.span = 0 THEN c.sbat ELSE c.sbat + (blk - c.sblk) \div c.span
Closed(v, b) == b < BatchAt(CurCfg(v), v.head)
(* executing does not make sense any more *)
Late(v, b) == LET c == CfgOf(v, b) IN ~Active(c) \/ v.head >= End(c, b) + c.to - 1
Enc(v, b) == At(v.enc, b, <<>>)
Ids(s) == [i \in DOMAIN s |-> s[i].id]
Good(s) == Ids(SelectSeq(s, LAMBDA x : x.good))
In(seq, x) == \E i \in DOMAIN seq : seq[i] = x
IndexIn(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x /\ \A j \in 1..(i-1) : seq[j] # x

(*------------------------------- the keyper's memory ----------------------------------*)
(* sync: keyper chain height up to which it has decided; next: first batch whose share it has not
   considered; held: eons it holds a key share of; got: valid shares received; keys: epoch keys;
   todo: keys of batches it has not decrypted yet; bt: decrypted batches; sgn: whose signatures it
   has; ph: highest half step it tried (-1: none); pend: appeals under way; chk/unchk: half steps
   looked at / executed but not decrypted yet; drop, dropS: what it has discarded (now, on disk) *)
New == [sync |-> 0, next |-> 0, held |-> {}, got |-> EmptyF, keys |-> {}, todo |-> {}, bt |-> EmptyF,
        sgn |-> EmptyF, ph |-> -1, pend |-> {}, chk |-> 0, unchk |-> {}, drop |-> {}, dropS |-> {}]

(*------------------------------ one decision ------------------------------------------*)
ShAt(sh, m) == SelectSeq(sh, LAMBDA x : x.h <= m)
OfKind(s, t) == SelectSeq(s, LAMBDA x : x.ev.t = t)
Eons(s) == [i \in DOMAIN OfKind(s, "eon") |-> OfKind(s, "eon")[i].ev]
EonOf(s, b) == LET es == Eons(s)
                   i == LastSuch(es, LAMBDA e : e.start <= b)
               IN  IF i = 0 THEN [eon |-> 0, start |-> 0, kp |-> <<>>, thr |-> 0] ELSE es[i]
EonRec(s, eon) == LET es == Eons(s) IN es[CHOOSE i \in DOMAIN es : es[i].eon = eon]
BcOf(s, b) == LET bs == OfKind(s, "bc")
                  i == LastSuch(bs, LAMBDA x : x.ev.sbat <= b)
              IN  IF i = 0 THEN <<>> ELSE bs[i].ev.kp

(* shares: a valid share of a member counts once; the threshold of them makes the key *)
TakeShare(s, ks, e) ==
  LET k == <<e.eon, e.b>>
      rec == EonRec(s, e.eon)
      g2 == At(ks.got, k, {}) \cup {e.snd}
  IN  IF e.eon \notin ks.held \/ ~e.ok \/ ~In(rec.kp, e.snd) \/ k \in ks.keys THEN ks
      ELSE IF Cardinality(g2) < rec.thr THEN [ks EXCEPT !.got = Upd(@, k, g2)]
      ELSE [ks EXCEPT !.keys = @ \cup {k}, !.todo = @ \cup {k}, !.got = Upd(@, k, g2)]
Shares(s, ks) ==
  LET evs == SelectSeq(OfKind(s, "share"), LAMBDA x : x.h >= ks.sync)
  IN  FoldLeft(LAMBDA q, x : TakeShare(s, q, x.ev), ks, evs)

(* signatures over exactly what the keyper decrypted, by keypers of the batch's config *)
Signers(v, s, ks, b) ==
  At(ks.sgn, b, {}) \cup
  (IF ks.bt[b].enc = <<>> \/ ~Active(CfgOf(v, b)) THEN {} ELSE
   {x.ev.snd : x \in {y \in ToSet(OfKind(s, "sig")) :
      /\ y.ev.b = b /\ y.ev.ok /\ y.ev.enc = ks.bt[b].enc /\ y.ev.good = ks.bt[b].good
      /\ In(CfgOf(v, b).kp, y.ev.snd)
      /\ ~\E d \in ks.drop : b < d[1] /\ y.h <= d[2]}})

(* batches that are closed and whose key is known are decrypted *)
Decrypt(v, s, ks) ==
  LET now == {k \in ks.todo : Closed(v, k[2])}
      bs == {k[2] : k \in {x \in now : Active(CfgOf(v, x[2]))}}
      bt2 == [b \in DOMAIN ks.bt \cup bs |-> IF b \in DOMAIN ks.bt THEN ks.bt[b]
                                             ELSE [enc |-> Ids(Enc(v, b)), good |-> Good(Enc(v, b))]]
      k1 == [ks EXCEPT !.todo = @ \ now, !.bt = bt2]
      sg == [b \in DOMAIN bt2 |-> Signers(v, s, k1, b)]
  IN  [ks |-> [k1 EXCEPT !.sgn = sg],
       acts |-> {[t |-> "sig", b |-> b, enc |-> bt2[b].enc, good |-> bt2[b].good] :
                   b \in {x \in bs \ DOMAIN ks.bt : bt2[x].enc # <<>> /\ ~Late(v, x) /\ Cardinality(sg[x]) < CfgOf(v, x).thr}}]

Publish(me, v, s, ks) ==
  LET c == CurCfg(v)
      cur == BatchAt(c, v.head)
      due == {b \in ks.next..(cur - 1) : /\ ~Late(v, b) /\ In(BcOf(s, b), me) /\ EonOf(s, b).eon \in ks.held
                                         /\ <<EonOf(s, b).eon, b>> \notin ks.keys}
  IN  IF ~\E i \in DOMAIN s : s[i].ev.t = "bc" /\ s[i].ev.idx = c.idx THEN [ks |-> ks, acts |-> {}]
      ELSE [ks |-> [ks EXCEPT !.next = cur], acts |-> {[t |-> "share", eon |-> EonOf(s, b).eon, b |-> b] : b \in due}]

Delay(me, stag, c, hs) ==
  LET n == Len(c.kp)
      mx == IF n = 1 THEN 0 ELSE c.to \div (2 * (n - 1))
      idx == IF In(c.kp, me) THEN IndexIn(c.kp, me) - 1 ELSE 0
  IN  ((hs + idx) % n) * (IF stag >= mx THEN mx ELSE stag)
NoAct == [t |-> "none"]
HalfStep(me, stag, v, ks, hs) ==
  LET b == hs \div 2
      c == CfgOf(v, b)
      d == Delay(me, stag, c, hs)
      cipher == hs % 2 = 0
  IN  IF ~Active(c) THEN NoAct
      ELSE IF cipher /\ v.head >= End(c, b) + c.to
           THEN IF v.head >= End(c, b) + c.to + d THEN [t |-> "skip", b |-> b] ELSE NoAct
      ELSE IF ~In(c.kp, me) \/ v.head < End(c, b) + d THEN NoAct
      ELSE IF ~cipher THEN [t |-> "plain", b |-> b, txs |-> At(v.plain, b, <<>>)]
      ELSE IF b \notin DOMAIN ks.bt THEN NoAct
      ELSE IF ks.bt[b].enc # <<>> /\ Cardinality(ks.sgn[b]) < c.thr THEN NoAct
      ELSE [t |-> "exec", b |-> b, txs |-> ks.bt[b].good]
Execute(me, stag, v, ks) ==
  LET ph == IF ks.ph >= 0 /\ v.nx > ks.ph THEN -1 ELSE ks.ph
      cur == BatchAt(CurCfg(v), v.head)
      num == IF v.nx >= 2 * cur THEN 0 ELSE IF 2 * cur - v.nx > MaxParallel THEN MaxParallel ELSE 2 * cur - v.nx
      acts == [i \in 1..num |-> HalfStep(me, stag, v, ks, v.nx + i - 1)]
      n == IF \E i \in 1..num : acts[i].t = "none" THEN (CHOOSE i \in 1..num : acts[i].t = "none" /\ \A j \in 1..(i-1) : acts[j].t # "none") - 1 ELSE num
  IN  IF ~Active(CurCfg(v)) THEN [ks |-> ks, acts |-> <<>>]
      ELSE IF ph >= 0 THEN [ks |-> ks, acts |-> <<>>]
      ELSE [ks |-> [ks EXCEPT !.ph = IF n = 0 THEN -1 ELSE v.nx + n - 1], acts |-> SubSeq(acts, 1, n)]

Appeals(v, ks) ==
  LET p1 == ks.pend \ v.app
      due == {hs \in v.acc \ (v.app \cup p1) :
                /\ hs \in DOMAIN v.rec /\ hs \div 2 \in DOMAIN ks.bt
                /\ v.rec[hs] = ks.bt[hs \div 2].good
                /\ Cardinality(ks.sgn[hs \div 2]) >= CfgOf(v, hs \div 2).thr}
  IN  [ks |-> [ks EXCEPT !.pend = p1 \cup due], acts |-> {[t |-> "appeal", hs |-> hs] : hs \in due}]

(* an executed half step is judged once its batch is decrypted; there is no point in waiting for
   that beyond the execution timeout, because nobody publishes key shares any more *)
Accuse(v, ks) ==
  LET seen == {hs \in (ks.chk..(v.nx - 1)) \cup ks.unchk : hs % 2 = 0 /\ hs \in DOMAIN v.rec}
      judged == {hs \in seen : hs \div 2 \in DOMAIN ks.bt}
      bad == {hs \in judged : v.rec[hs] # ks.bt[hs \div 2].good /\ hs \notin v.acc}
  IN  [ks |-> [ks EXCEPT !.chk = IF v.nx > @ THEN v.nx ELSE @, !.unchk = {hs \in seen \ judged : ~Late(v, hs \div 2)}],
       acts |-> {[t |-> "acc", hs |-> hs] : hs \in bad}]

(* the decision at main chain block head and keyper chain height m *)
Decide(me, stag, main, sh, head, m, ks) ==
  LET v == ViewAt(main, head)
      s == ShAt(sh, m)
      member == \E i \in DOMAIN s : s[i].ev.t = "bc" /\ In(s[i].ev.kp, me)
      k1 == Shares(s, ks)
      d == Decrypt(v, s, k1)
      p == Publish(me, v, s, d.ks)
      x == Execute(me, stag, v, p.ks)
      a == Appeals(v, x.ks)
      c == Accuse(v, a.ks)
  IN  IF ~member THEN [ks |-> ks, share |-> {}, sig |-> {}, exec |-> <<>>, appeal |-> {}, acc |-> {}]
      ELSE [ks |-> [c.ks EXCEPT !.sync = m + 1], share |-> p.acts, sig |-> d.acts, exec |-> x.acts,
            appeal |-> a.acts, acc |-> c.acts]
Idle(ks) == [ks |-> ks, share |-> {}, sig |-> {}, exec |-> <<>>, appeal |-> {}, acc |-> {}]
(* afterwards the state is saved, and then data that will not be needed any more is discarded *)
Discard(ks, nx, m, filter) ==
  [ks EXCEPT !.dropS = ks.drop, !.drop = IF filter THEN @ \cup {<<nx \div 2, m>>} ELSE @]
Restart(ks) == [ks EXCEPT !.drop = ks.dropS]
=============================================================================
