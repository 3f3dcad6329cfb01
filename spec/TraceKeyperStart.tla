-------------------------- MODULE TraceKeyperStart --------------------------
(* Validates what the real keyper command does when it is started *)
EXTENDS KeyperStart, Json, IOUtils
VARIABLES d, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Why(e) == CASE e.op = "start" -> IF StartOK(d, e) THEN {} ELSE {"start"} [] e.op = "trouble" -> {e.what} [] OTHER -> {}
TInit == d = Start /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN d' = Start /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<d, skip>>
     ELSE IF Why(e) = {} THEN d' = After(d, e) /\ skip' = FALSE
     ELSE /\ skip' = TRUE /\ d' = d
          /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> Why(e), got |-> e, expected |-> d]))
TSpec == TInit /\ [][TNext]_<<d, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
