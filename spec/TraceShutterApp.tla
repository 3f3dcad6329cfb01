-------------------------- MODULE TraceShutterApp --------------------------
(* Validates recorded executions of the real application against ShutterApp: *)
(* every line is one call with its real response; the specification's action  *)
(* computes the only response it allows.  A line that differs is reported and *)
(* the rest of its segment (up to the next reset) skipped.                    *)
EXTENDS ShutterApp, Json, IOUtils
VARIABLES l, skip
tvars == <<app, saved, out, l, skip>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
NoGenesis == [kp |-> <<"k1">>, thr |-> 1, vals |-> <<>>, dev |-> FALSE, chain |-> ""]

ToSet(s) == {s[i] : i \in DOMAIN s}
Logged(e) == IF e.op = "end"
             THEN [upd |-> {<<e.out.upd[i].pk, e.out.upd[i].pw>> : i \in DOMAIN e.out.upd},
                   n |-> Len(e.out.upd), twin |-> "twin" \in DOMAIN e.out]
             ELSE e.out
Expected(e, o) == IF e.op = "end" THEN [upd |-> o.upd, n |-> Cardinality(o.upd), twin |-> FALSE] ELSE o

Step(e) ==
  CASE e.op = "tx"     -> DeliverTx(e.tx)
    [] e.op = "check"  -> CheckTx(e.tx)
    [] e.op = "end"    -> EndBlock(e.h)
    [] e.op = "commit" -> Commit(e.save)
    [] e.op = "info"   -> Info
    [] e.op = "crash"  -> CrashRestart

Why(e) == IF e.op # "tx" THEN e.op
          ELSE IF ~e.tx.ok \/ e.tx.chain # app.chain \/ <<e.tx.snd, e.tx.nonce>> \in app.used THEN "auth"
          ELSE e.tx.msg.t
Report(e) == PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> Why(e), expected |-> Expected(e, out'), got |-> Logged(e)]))

TraceInit == app = InitState(NoGenesis) /\ saved = app /\ out = [ok |-> TRUE] /\ l = 1 /\ skip = TRUE
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset"
     THEN app' = InitState(e.g) /\ saved' = app' /\ out' = [ok |-> TRUE] /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<app, saved, out, skip>>
     ELSE /\ Step(e)
          /\ IF Expected(e, out') = Logged(e) THEN skip' = FALSE
             ELSE skip' = TRUE /\ Report(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
