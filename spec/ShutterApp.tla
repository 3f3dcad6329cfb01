----------------------------- MODULE ShutterApp -----------------------------
(***************************************************************************)
(* The replicated keyper-chain application (shuttermint/app).              *)
(*                                                                         *)
(* One action per ABCI call: DeliverTx, CheckTx, EndBlock, Commit, plus    *)
(* Info and CrashRestart.  Bytes are abstract: addresses, keys, points and *)
(* payloads are names (strings); uint64 values are naturals (an order      *)
(* preserving image, see harness/shut/appx).  `app' is the replicated      *)
(* state, `saved' what the last Commit made durable, `out' the response.   *)
(*                                                                         *)
(* Ghost fields (never influence behaviour): configs[i].by, configs[i].sby *)
(* and eons[i].why record who authorised what, so that the properties are  *)
(* invariants of the state.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES app, saved, out
vars == <<app, saved, out>>

MaxTxsPerBlock == 10
NoVal == "none"                  \* placeholder validator key

Range(f) == {f[x] : x \in DOMAIN f}
Last(s) == s[Len(s)]
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

----------------------------------------------------------------------------
(* Derived state *)

LastCfg(a) == Last(a.configs)
Members(a) == UNION {Range(a.configs[i].kp) : i \in DOMAIN a.configs}
CfgFor(a, b) == a.configs[SetMax({i \in DOMAIN a.configs : a.configs[i].start <= b})]

KeyOf(a, k) == IF k \in DOMAIN a.ids THEN a.ids[k] ELSE NoVal
PowerMap(a, kp) ==
  [p \in {KeyOf(a, kp[i]) : i \in DOMAIN kp} |->
     10 * Cardinality({i \in DOMAIN kp : KeyOf(a, kp[i]) = p})]
Active(a) == {i \in DOMAIN a.configs : a.configs[i].st /\ a.configs[i].vu}
CurrentVals(a) == IF Active(a) = {} THEN a.vals
                  ELSE PowerMap(a, a.configs[SetMax(Active(a))].kp)
Diff(old, new) ==
  {<<p, 0>> : p \in DOMAIN old \ DOMAIN new} \cup
  {<<p, new[p]>> : p \in {q \in DOMAIN new : q \notin DOMAIN old \/ old[q] # new[q]}}

Ok(evs) == [code |-> 0, ev |-> evs]
Err == [code |-> 1, ev |-> <<>>]
R(a, o) == [a |-> a, o |-> o]

----------------------------------------------------------------------------
(* Initial state: InitChain with the genesis document *)

InitApp(g) ==
  [ configs |-> << [start |-> 0, kp |-> g.kp, thr |-> g.thr, addr |-> "zero", idx |-> 0,
                    st |-> FALSE, vu |-> FALSE, by |-> {}, sby |-> {}, st0 |-> FALSE] >>,
    cvotes  |-> EmptyFn,       \* keyper -> config voted for
    svotes  |-> {},            \* keypers attesting the start of the last config
    ids     |-> EmptyFn,       \* keyper -> validator key
    esv     |-> EmptyFn,       \* config index -> (keyper -> start batch)
    dsig    |-> EmptyFn,       \* batch -> [kp, by]
    eons    |-> <<>>,          \* eon n = eons[n]
    used    |-> {},            \* <<sender, nonce>> delivered
    adm     |-> EmptyFn,       \* sender -> set of nonces admitted since last commit
    vals    |-> [p \in {g.vals[i].pk : i \in DOMAIN g.vals} |->
                   (CHOOSE i \in DOMAIN g.vals : g.vals[i].pk = p)],
    height  |-> 0,
    dev     |-> g.dev,
    chain   |-> g.chain ]

InitState(g) ==
  LET a == InitApp(g)
  IN  [a EXCEPT !.vals = [p \in DOMAIN a.vals |-> g.vals[a.vals[p]].pw]]

----------------------------------------------------------------------------
(* Messages *)

MkConfig(m) == [start |-> m.start, kp |-> m.kp, thr |-> m.thr, addr |-> m.addr,
                idx |-> m.idx, st |-> m.st, vu |-> m.vu]
Bare(c) == [start |-> c.start, kp |-> c.kp, thr |-> c.thr, addr |-> c.addr,
            idx |-> c.idx, st |-> c.st, vu |-> c.vu]

Valid(a, c) ==
  /\ Len(c.kp) > 0
  /\ c.thr > 0 /\ c.thr <= Len(c.kp)
  /\ c.start >= LastCfg(a).start
  /\ c.idx > LastCfg(a).idx

NewEon(a, kp, thr, start, why) ==
  [a EXCEPT !.eons = Append(@, [kp |-> kp, thr |-> thr, start |-> start, why |-> why,
                                pe |-> {}, pc |-> {}, ac |-> {}, ap |-> {}])]
EonEv(a) == [t |-> "eon", eon |-> Len(a.eons), start |-> Last(a.eons).start]

ShouldStartDKG(a, c) ==
  \/ a.eons = <<>>
  \/ Last(a.eons).thr # c.thr
  \/ Last(a.eons).kp # c.kp

AcceptConfig(a, c) ==
  LET by == {k \in DOMAIN a.cvotes : a.cvotes[k] = c}
      full == [start |-> c.start, kp |-> c.kp, thr |-> c.thr, addr |-> c.addr, idx |-> c.idx,
               st |-> c.st, vu |-> c.vu, by |-> by, sby |-> {}, st0 |-> c.st]
      a1 == [a EXCEPT !.configs = Append(@, full), !.cvotes = EmptyFn, !.svotes = {}]
      ev == [t |-> "bc", start |-> c.start, kp |-> c.kp, thr |-> c.thr, idx |-> c.idx]
  IN  IF ShouldStartDKG(a, c)
      THEN LET a2 == NewEon(a1, c.kp, c.thr, c.start, [kind |-> "config", by |-> by])
           IN  R(a2, Ok(<<ev, EonEv(a2)>>))
      ELSE R(a1, Ok(<<ev>>))

DoBatchConfig(a, snd, m) ==
  LET c == MkConfig(m) IN
  IF m.wf # "ok" \/ ~NoDup(m.kp) THEN R(a, Err)
  ELSE IF c = Bare(LastCfg(a)) THEN R(a, Ok(<<>>))
  ELSE IF ~Valid(a, c) THEN R(a, Err)
  ELSE IF snd \notin Range(LastCfg(a).kp) THEN R(a, Err)
  ELSE IF snd \in DOMAIN a.cvotes THEN R(a, Err)
  ELSE LET a1 == [a EXCEPT !.cvotes = Put(@, snd, c)]
           n  == Cardinality({k \in DOMAIN a1.cvotes : a1.cvotes[k] = c})
       IN  IF n >= LastCfg(a).thr THEN AcceptConfig(a1, c) ELSE R(a1, Ok(<<>>))

DoStarted(a, snd, m) ==
  IF m.idx # LastCfg(a).idx \/ Len(a.configs) <= 1 THEN R(a, Err)
  ELSE IF snd \notin Range(a.configs[Len(a.configs) - 1].kp) THEN R(a, Err)
  ELSE IF LastCfg(a).st THEN R(a, Ok(<<>>))
  ELSE R([a EXCEPT !.svotes = @ \cup {snd}], Ok(<<>>))

DoCheckIn(a, snd, m) ==
  IF snd \in DOMAIN a.ids \/ snd \notin Members(a) \/ m.wf # "ok" THEN R(a, Err)
  ELSE R([a EXCEPT !.ids = Put(@, snd, m.vk)], Ok(<<[t |-> "ci", snd |-> snd, ek |-> m.ek]>>))

DoEonVote(a, snd, m) ==
  LET c == CfgFor(a, m.start) IN
  IF snd \notin Range(c.kp) THEN R(a, Err)
  ELSE LET old == IF c.idx \in DOMAIN a.esv THEN a.esv[c.idx] ELSE EmptyFn
           v   == Put(old, snd, m.start)
           by  == {k \in DOMAIN v : v[k] = m.start}
       IN  IF Cardinality(by) >= c.thr
           THEN LET a1 == NewEon([a EXCEPT !.esv = Drop(@, c.idx)], c.kp, c.thr, m.start,
                                 [kind |-> "vote", by |-> by])
                IN  R(a1, Ok(<<EonEv(a1)>>))
           ELSE R([a EXCEPT !.esv = Put(@, c.idx, v)], Ok(<<>>))

DoDecSig(a, snd, m) ==
  LET d == IF m.b \in DOMAIN a.dsig THEN a.dsig[m.b]
           ELSE [kp |-> Range(CfgFor(a, m.b).kp), by |-> {}]
  IN  IF snd \notin d.kp \/ snd \in d.by THEN R(a, Err)
      ELSE R([a EXCEPT !.dsig = Put(@, m.b, [d EXCEPT !.by = @ \cup {snd}])],
             Ok(<<[t |-> "ds", snd |-> snd, b |-> m.b, sig |-> m.sig]>>))

EonKeyper(a, e, k) == k \in Range(a.eons[e].kp)
Addressees(a, snd, e, to) == NoDup(to) /\ \A i \in DOMAIN to : to[i] # snd /\ EonKeyper(a, e, to[i])
EonOk(a, snd, m) == m.wf = "ok" /\ m.eon \in DOMAIN a.eons /\ EonKeyper(a, m.eon, snd)

DoPolyEval(a, snd, m) ==
  IF /\ EonOk(a, snd, m) /\ Len(m.rc) = Len(m.ev) /\ Addressees(a, snd, m.eon, m.rc)
     /\ \A i \in DOMAIN m.rc : <<snd, m.rc[i]>> \notin a.eons[m.eon].pe
  THEN R([a EXCEPT !.eons[m.eon].pe = @ \cup {<<snd, m.rc[i]>> : i \in DOMAIN m.rc}],
         Ok(<<[t |-> "pe", snd |-> snd, eon |-> m.eon, rc |-> m.rc, ev |-> m.ev]>>))
  ELSE R(a, Err)

DoPolyCommitment(a, snd, m) ==
  IF EonOk(a, snd, m) /\ snd \notin a.eons[m.eon].pc
  THEN R([a EXCEPT !.eons[m.eon].pc = @ \cup {snd}],
         Ok(<<[t |-> "pc", snd |-> snd, eon |-> m.eon, g |-> m.g]>>))
  ELSE R(a, Err)

DoAccusation(a, snd, m) ==
  IF EonOk(a, snd, m) /\ Addressees(a, snd, m.eon, m.acc) /\ snd \notin a.eons[m.eon].ac
  THEN R([a EXCEPT !.eons[m.eon].ac = @ \cup {snd}],
         Ok(<<[t |-> "ac", snd |-> snd, eon |-> m.eon, acc |-> m.acc]>>))
  ELSE R(a, Err)

DoApology(a, snd, m) ==
  IF /\ EonOk(a, snd, m) /\ Len(m.acc) = Len(m.ev) /\ Addressees(a, snd, m.eon, m.acc)
     /\ snd \notin a.eons[m.eon].ap
  THEN R([a EXCEPT !.eons[m.eon].ap = @ \cup {snd}],
         Ok(<<[t |-> "ap", snd |-> snd, eon |-> m.eon, acc |-> m.acc, ev |-> m.ev]>>))
  ELSE R(a, Err)

DoShare(a, snd, m) ==
  IF m.wf = "ok"
  THEN R(a, Ok(<<[t |-> "sh", snd |-> snd, eon |-> m.eon, epoch |-> m.epoch, share |-> m.share]>>))
  ELSE R(a, Err)

DoMsg(a, snd, m) ==
  CASE m.t = "bc"  -> DoBatchConfig(a, snd, m)
    [] m.t = "bcs" -> DoStarted(a, snd, m)
    [] m.t = "ci"  -> DoCheckIn(a, snd, m)
    [] m.t = "esv" -> DoEonVote(a, snd, m)
    [] m.t = "ds"  -> DoDecSig(a, snd, m)
    [] m.t = "pe"  -> DoPolyEval(a, snd, m)
    [] m.t = "pc"  -> DoPolyCommitment(a, snd, m)
    [] m.t = "ac"  -> DoAccusation(a, snd, m)
    [] m.t = "ap"  -> DoApology(a, snd, m)
    [] m.t = "sh"  -> DoShare(a, snd, m)
    [] OTHER       -> R(a, Err)

----------------------------------------------------------------------------
(* ABCI calls.  tx = [ok, snd, chain, nonce, msg]; ok: decodes to a signed message *)

TxResult(a, tx) ==
  IF ~tx.ok THEN R(a, Err)
  ELSE IF tx.chain # a.chain THEN R(a, Err)
  ELSE IF <<tx.snd, tx.nonce>> \in a.used THEN R(a, Err)
  ELSE DoMsg([a EXCEPT !.used = @ \cup {<<tx.snd, tx.nonce>>}], tx.snd, tx.msg)

AdmittedOf(a, k) == IF k \in DOMAIN a.adm THEN a.adm[k] ELSE {}
Admissible(a, tx) ==
  /\ tx.ok
  /\ tx.chain = a.chain
  /\ <<tx.snd, tx.nonce>> \notin a.used
  /\ tx.snd \in Members(a)
  /\ Cardinality(AdmittedOf(a, tx.snd)) < MaxTxsPerBlock
  /\ tx.nonce \notin AdmittedOf(a, tx.snd)
CheckResult(a, tx) ==
  IF Admissible(a, tx)
  THEN R([a EXCEPT !.adm = Put(@, tx.snd, AdmittedOf(a, tx.snd) \cup {tx.nonce})], Ok(<<>>))
  ELSE R(a, Err)

NumCheckedIn(a, kp) == Cardinality({i \in DOMAIN kp : kp[i] \in DOMAIN a.ids})
EndResult(a, h) ==
  LET n  == Len(a.configs)
      a1 == IF n >= 2 /\ Cardinality(a.svotes) >= a.configs[n - 1].thr
            THEN [a EXCEPT !.configs[n].st = TRUE, !.configs[n].sby = a.svotes, !.svotes = {}]
            ELSE a
      c  == LastCfg(a1)
      a2 == IF c.st /\ ~c.vu /\ NumCheckedIn(a1, c.kp) >= c.thr
            THEN [a1 EXCEPT !.configs[n].vu = TRUE]
            ELSE a1
      nv == CurrentVals(a2)
  IN  R([a2 EXCEPT !.vals = nv, !.height = h],
        [upd |-> IF a.dev THEN {} ELSE Diff(a.vals, nv)])

DeliverTx(tx) == LET r == TxResult(app, tx) IN app' = r.a /\ out' = r.o /\ UNCHANGED saved
CheckTx(tx)   == LET r == CheckResult(app, tx) IN app' = r.a /\ out' = r.o /\ UNCHANGED saved
EndBlock(h)   == LET r == EndResult(app, h) IN app' = r.a /\ out' = r.o /\ UNCHANGED saved
Commit(save)  == /\ app' = [app EXCEPT !.adm = EmptyFn]
                 /\ saved' = IF save THEN app' ELSE saved
                 /\ out' = [ok |-> TRUE]
Info          == out' = [h |-> app.height] /\ UNCHANGED <<app, saved>>
(* stop anywhere, reload the last saved state *)
CrashRestart  == app' = saved /\ out' = [h |-> saved.height] /\ UNCHANGED saved

----------------------------------------------------------------------------
(* Properties *)

(* A01: the chain of configs is authorised link by link *)
ConfigsAuthorised ==
  \A i \in 2..Len(app.configs) :
    LET p == app.configs[i - 1]  c == app.configs[i] IN
    /\ c.by \subseteq Range(p.kp) /\ Cardinality(c.by) >= p.thr
    /\ Len(c.kp) > 0 /\ NoDup(c.kp) /\ c.thr \in 1..Len(c.kp)
    /\ c.start >= p.start /\ c.idx > p.idx
VotesByCurrentKeypers ==
  \A k \in DOMAIN app.cvotes : k \in Range(LastCfg(app).kp) /\ Valid(app, app.cvotes[k])

(* A02: starting needs attestations for this very config by its predecessor's keypers *)
StartsAttested ==
  \A i \in DOMAIN app.configs :
    LET c == app.configs[i] IN
    (c.st /\ ~c.st0) =>
       i > 1 /\ c.sby \subseteq Range(app.configs[i - 1].kp)
             /\ Cardinality(c.sby) >= app.configs[i - 1].thr
AttestationsForLast ==
  app.svotes # {} => Len(app.configs) > 1 /\ app.svotes \subseteq Range(app.configs[Len(app.configs) - 1].kp)

(* A03/A04 *)
AdmissionBounded == \A k \in DOMAIN app.adm : k \in Members(app) /\ Cardinality(app.adm[k]) <= MaxTxsPerBlock
NoncesNeverForgotten == [][\/ app.used \subseteq app'.used \/ app' = saved]_vars

(* A06/A08: at most one message of a kind per sender, only keypers *)
RelayOnlyKeypers ==
  \A e \in DOMAIN app.eons :
    LET d == app.eons[e]  K == Range(d.kp) IN
    /\ d.pe \subseteq (K \X K) /\ \A p \in d.pe : p[1] # p[2]
    /\ d.pc \subseteq K /\ d.ac \subseteq K /\ d.ap \subseteq K
SigsOnlyKeypers == \A b \in DOMAIN app.dsig : app.dsig[b].by \subseteq app.dsig[b].kp /\ app.dsig[b].by # {}

(* A07 *)
EonsJustified ==
  \A e \in DOMAIN app.eons :
    LET d == app.eons[e] IN
    /\ Cardinality(d.why.by) >= 1
    /\ d.why.kind = "vote" => d.why.by \subseteq Range(d.kp) /\ Cardinality(d.why.by) >= d.thr
    /\ (d.why.kind = "config" /\ e > 1) => (d.kp # app.eons[e-1].kp \/ d.thr # app.eons[e-1].thr)
EonsAppendOnly ==
  [][ \/ app' = saved
      \/ /\ Len(app'.eons) \in {Len(app.eons), Len(app.eons) + 1}
         /\ \A e \in DOMAIN app.eons : app'.eons[e].kp = app.eons[e].kp /\ app'.eons[e].start = app.eons[e].start ]_vars
NoDecidedVotePending ==
  \A i \in DOMAIN app.esv : \E j \in DOMAIN app.configs :
     app.configs[j].idx = i /\ \A k \in DOMAIN app.esv[i] :
        Cardinality({x \in DOMAIN app.esv[i] : app.esv[i][x] = app.esv[i][k]}) < app.configs[j].thr

(* A05: what is durable is a block boundary *)
SavedAtBoundary == saved.adm = EmptyFn /\ saved.height <= app.height
=============================================================================
