--------------------------- MODULE MCShutterApp ---------------------------
(* Exhaustive exploration of ShutterApp within small constants; each .cfg *)
(* enables one family of messages (KINDS) so that the graph stays finite. *)
EXTENDS ShutterApp, SequencesExt, Json
CONSTANTS KINDS, MAXCFG, MAXEON, GenSel, EMIT
VARIABLE hist
mcvars == <<app, saved, out, hist>>

K3 == {"k1", "k2", "k3"}
Genesis == IF GenSel = 1
           THEN [kp |-> <<"k1", "k2">>, thr |-> 2, vals |-> <<[pk |-> "i1", pw |-> 10]>>, dev |-> FALSE, chain |-> "c"]
           ELSE [kp |-> <<"k1", "k2", "k3">>, thr |-> 2, vals |-> <<[pk |-> "i1", pw |-> 5]>>, dev |-> FALSE, chain |-> "c"]

CfgMsg(i, kp, thr, start) ==
  [t |-> "bc", wf |-> "ok", start |-> start, kp |-> kp, thr |-> thr, addr |-> "zero", idx |-> i,
   st |-> FALSE, vu |-> FALSE]
CfgMsgs ==
  UNION {{CfgMsg(i, <<"k1", "k2">>, 1, 5), CfgMsg(i, <<"k2", "k3">>, 2, 5), CfgMsg(i, <<"k3">>, 2, 9)}
         : i \in 1..MAXCFG}
Msgs ==
  (IF "bc" \in KINDS THEN CfgMsgs ELSE {}) \cup
  (IF "bcs" \in KINDS THEN {[t |-> "bcs", idx |-> i] : i \in 1..MAXCFG} ELSE {}) \cup
  (IF "ci" \in KINDS THEN {[t |-> "ci", wf |-> "ok", vk |-> "v1", ek |-> "e1"]} ELSE {}) \cup
  (IF "esv" \in KINDS THEN {[t |-> "esv", start |-> b] : b \in {2, 5}} ELSE {}) \cup
  (IF "ds" \in KINDS THEN {[t |-> "ds", b |-> b, sig |-> "z"] : b \in {2, 6}} ELSE {}) \cup
  (IF "dkg" \in KINDS THEN
     UNION {{[t |-> "pe", wf |-> "ok", eon |-> 1, rc |-> rc, ev |-> rc],
             [t |-> "ac", wf |-> "ok", eon |-> 1, acc |-> rc],
             [t |-> "ap", wf |-> "ok", eon |-> 1, acc |-> rc, ev |-> rc]} :
             rc \in IF "dkgbig" \in KINDS THEN {<<>>, <<"k1">>, <<"k2">>, <<"k2", "k3">>, <<"k2", "k2">>}
                     ELSE {<<"k1">>, <<"k2", "k3">>}} \cup
     {[t |-> "pc", wf |-> "ok", eon |-> e, g |-> <<>>] : e \in {1, 2}} ELSE {})

\* A transaction with nonce 0 stands for one with a fresh nonce; replay and admission are
\* explored with KINDS containing "nonce".
Tx(k, n, m) == [ok |-> TRUE, snd |-> k, chain |-> "c", nonce |-> n, msg |-> m]
NonceMsg == [t |-> "sh", wf |-> "ok", eon |-> 1, epoch |-> 1, share |-> "s1"]
NonceTxs == UNION {{Tx(k, n, NonceMsg), [Tx(k, n, NonceMsg) EXCEPT !.chain = "d"]} : k \in {"k1", "k3"}, n \in {1, 2}}

\* every operation of this configuration, numbered, so that behaviours are short to print
Ops == SetToSeq({[op |-> "tx", tx |-> Tx(k, 0, m)] : k \in K3, m \in Msgs}) \o
       (IF "nonce" \in KINDS THEN SetToSeq({[op |-> "tx", tx |-> t] : t \in NonceTxs} \cup
                                           {[op |-> "check", tx |-> t] : t \in NonceTxs}) ELSE <<>>) \o
       (IF "end" \in KINDS THEN <<[op |-> "end"]>> ELSE <<>>) \o
       (IF "commit" \in KINDS THEN <<[op |-> "commit", save |-> TRUE], [op |-> "commit", save |-> FALSE]>> ELSE <<>>) \o
       (IF "crash" \in KINDS THEN <<[op |-> "crash"]>> ELSE <<>>)

Forget(r) == R([r.a EXCEPT !.used = {}], r.o)
Result(tx) == IF tx.nonce = 0 THEN Forget(TxResult(app, tx)) ELSE TxResult(app, tx)
Do(o) ==
  CASE o.op = "tx"    -> app' = Result(o.tx).a /\ out' = [code |-> Result(o.tx).o.code] /\ UNCHANGED saved
    [] o.op = "check" -> LET r == CheckResult(app, o.tx) IN app' = r.a /\ out' = [code |-> r.o.code] /\ UNCHANGED saved
    [] o.op = "end"   -> /\ app.height < 3
                         /\ app' = EndResult(app, app.height + 1).a /\ out' = [code |-> 0] /\ UNCHANGED saved
    [] o.op = "commit" -> /\ app' = [app EXCEPT !.adm = EmptyFn]
                          /\ saved' = (IF o.save THEN app' ELSE saved)
                          /\ out' = [code |-> 0]
    [] o.op = "crash" -> app' = saved /\ out' = [code |-> 0] /\ UNCHANGED saved

MCInit == app = InitState(Genesis) /\ saved = app /\ out = [code |-> 0] /\ hist = <<>>
MCNext == \E i \in DOMAIN Ops : Do(Ops[i]) /\ hist' = Append(hist, i)
MCSpec == MCInit /\ [][MCNext]_mcvars
Bound == Len(app.configs) <= MAXCFG + 1 /\ Len(app.eons) <= MAXEON
View == <<app, saved>>
NonceSafe == [][ \A p \in app.used : p \in app'.used \/ app' = saved ]_mcvars

(* Transition cover: every transition of the explored graph is printed as the path to its *)
(* source followed by the operation, 0/1 telling whether it changed the state.            *)
Emit == EMIT => PrintT("T " \o ToString(hist') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson(Genesis))

(* non-vacuity witnesses: each of these must be violated (checked by the runner) *)
NeverThreeConfigs == Len(app.configs) < 3
NeverStarted == \A i \in DOMAIN app.configs : ~app.configs[i].st
NeverVals == Active(app) = {}
NeverTwoEons == Len(app.eons) < 2
=============================================================================
