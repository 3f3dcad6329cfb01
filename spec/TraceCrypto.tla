----------------------------- MODULE TraceCrypto -----------------------------
(* Validates what the real shcrypto computes against Crypto.  Values are recorded as digests: equal
   symbolic values must have equal digests and different ones different digests. *)
EXTENDS Crypto, SequencesExt, TLC, Json, IOUtils
VARIABLES s, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fresh(e) == [eons |-> e.eons, share |-> <<>>, key |-> <<>>, ct |-> <<>>, shuf |-> <<>>]
Primes == <<46337, 46327>>
(* tab: sequence of [sym, val]; does a new pair fit in? *)
Fits(tab, sym, val) == \A j \in DOMAIN tab : (tab[j].sym = sym) = (tab[j].val = val)
KeyOf(q, e) == IF CombineOK(e.idx, e.sh, e.thr) THEN Interpolate(q.eons, e.idx, [j \in DOMAIN e.sh |-> q.share[e.sh[j]].sym]) ELSE <<>>
Bad(q, e) == IF e.c = 0 \/ e.of # 0 THEN Times(IF e.of = 0 THEN Foreign(1) ELSE q.share[e.of].sym, e.c) ELSE Foreign(e.id)
CtSym(e) == [e |-> e.e, m |-> e.m, msg |-> e.msg, sg |-> e.sg]
Why(q, e) ==
  (IF "clean" \in DOMAIN e /\ ~e.clean THEN {"input changed"} ELSE {}) \cup
  CASE e.op = "share" -> IF Fits(q.share, Share(q.eons, e.e, e.i, e.m), e.val) THEN {} ELSE {"epoch secret key share"}
    [] e.op = "badshare" -> IF Fits(q.share, Bad(q, e), e.val) THEN {} ELSE {"group arithmetic"}
    [] e.op = "vshare" -> IF e.ok = VerifyShare(q.eons, q.share[e.s].sym, e.e, e.i, e.m) THEN {} ELSE {"share verification"}
    [] e.op = "poly" -> IF e.ok = (e.a = e.b /\ (e.i = e.j \/ q.eons[e.e].t = 1) /\ q.eons[e.e].t = e.thr) THEN {} ELSE {"evaluation verification"}
    [] e.op = "eonkey" -> IF e.ok THEN {} ELSE {"eon public key"}
    [] e.op = "combine" -> IF e.ok # CombineOK(e.idx, e.sh, e.thr) THEN {"combination accepted or refused"}
                           ELSE IF e.ok /\ ~Fits(q.key, KeyOf(q, e), e.val) THEN {"epoch secret key"} ELSE {}
    [] e.op = "vkey" -> IF e.ok = VerifyKey(q.eons, q.key[e.key].sym, e.e, e.m) THEN {} ELSE {"key verification"}
    [] e.op = "enc" -> (IF e.blocks = Blocks(e.len) THEN {} ELSE {"ciphertext length"}) \cup
                       (IF Fits(q.ct, CtSym(e), e.val) THEN {} ELSE {"ciphertext"}) \cup
                       (IF e.reused = 0 THEN {} ELSE {"a block is masked with what masks another"}) \cup
                       (IF e.again THEN {} ELSE {"serialised ciphertext"})
    [] e.op = "dec" -> LET c == q.ct[e.c].sym IN
                       IF Opens(q.eons, c, e.mod, q.key[e.key].sym) THEN (IF e.res = "msg" /\ e.msg = c.msg THEN {} ELSE {"decryption fails"})
                       ELSE (IF e.res = "err" THEN {} ELSE {"decryption succeeds"})
    [] e.op = "shuffle" -> IF ToSet(e.perm) = 1..e.n /\ Len(e.perm) = e.n /\ \A j \in DOMAIN q.shuf : q.shuf[j].key = e.key /\ q.shuf[j].n = e.n => q.shuf[j].perm = e.perm THEN {} ELSE {"shuffle"}
    [] e.op = "trouble" -> {e.what}
Apply(q, e) ==
  CASE e.op = "share" -> [q EXCEPT !.share = Append(@, [sym |-> Share(q.eons, e.e, e.i, e.m), val |-> e.val])]
    [] e.op = "badshare" -> [q EXCEPT !.share = Append(@, [sym |-> Bad(q, e), val |-> e.val])]
    [] e.op = "combine" -> IF e.ok THEN [q EXCEPT !.key = Append(@, [sym |-> KeyOf(q, e), val |-> e.val])] ELSE q
    [] e.op = "enc" -> [q EXCEPT !.ct = Append(@, [sym |-> CtSym(e), val |-> e.val])]
    [] e.op = "shuffle" -> [q EXCEPT !.shuf = Append(@, [key |-> e.key, n |-> e.n, perm |-> e.perm])]
    [] OTHER -> q
TInit == s = Fresh([eons |-> <<>>]) /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN s' = Fresh(e) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE LET d == Why(s, e) IN
          /\ s' = (IF d = {} THEN Apply(s, e) ELSE s) /\ skip' = (d # {})
          /\ d # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e, expected |-> IF e.op = "combine" THEN ToString(KeyOf(s, e)) ELSE ""]))
TSpec == TInit /\ [][TNext]_<<s, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
