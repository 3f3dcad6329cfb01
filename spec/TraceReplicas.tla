--------------------------- MODULE TraceReplicas ---------------------------
(* Validates recorded executions of several real replicas against Replicas. *)
EXTENDS Replicas, Json, IOUtils
VARIABLES l, skip, exp
tvars == <<resp, rep, l, skip, exp>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

Pre(e) == CASE e.op = "exec" -> CanExec(e.r, e.h, e.i)
            [] e.op = "end" -> CanEnd(e.r, e.h)
            [] e.op = "commit" -> CanCommit(e.r)
            [] e.op = "probe" -> rep[e.r].ph = "commit"
            [] OTHER -> TRUE
Step(e) == CASE e.op = "exec"   -> Exec(e.r, e.h, e.i, e.out.d) /\ exp' = [d |-> Allowed(e.h, e.i, e.out.d)]
             [] e.op = "end"    -> End(e.r, e.h, e.out.d) /\ exp' = [d |-> Allowed(e.h, 0, e.out.d)]
             [] e.op = "commit" -> Commit(e.r, e.save) /\ exp' = e.out
             [] e.op = "probe"  -> Probe(e.r, e.out.d) /\ exp' = [d |-> Allowed(rep[e.r].h, 999999, e.out.d)]
             [] e.op = "crash"  -> Crash(e.r) /\ exp' = [h |-> rep[e.r].saved]
             [] e.op = "info"   -> UNCHANGED rvars /\ exp' = [h |-> rep[e.r].h]
TInit == resp = [x \in {} |-> 0] /\ rep = [r \in {} |-> Fresh] /\ l = 1 /\ skip = TRUE /\ exp = [d |-> "none"]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "reset"
            THEN resp' = [x \in {} |-> 0] /\ rep' = [r \in 1..e.n |-> Fresh] /\ skip' = FALSE /\ exp' = [d |-> "none"]
            ELSE IF skip THEN UNCHANGED <<resp, rep, skip, exp>>
            ELSE /\ Assert(Pre(e), <<"driver error at line", l>>)
                 /\ Step(e)
                 /\ IF exp' = e.out THEN skip' = FALSE
                    ELSE skip' = TRUE /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, expected |-> exp', got |-> e.out]))
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
