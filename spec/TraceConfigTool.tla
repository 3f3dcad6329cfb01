--------------------------- MODULE TraceConfigTool ---------------------------
(* Validates what the real commands make of the real contract, and what they print *)
EXTENDS ConfigTool, Json, IOUtils
VARIABLES q, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Why(e) ==
  CASE e.op = "set" -> IF SetOK(q, e) THEN {} ELSE {"set-next"}
    [] e.op = "schedule" -> IF ScheduleAllowed(q, e) THEN {} ELSE {"schedule"}
    [] e.op = "both" -> IF BothAllowed(q, e) THEN {} ELSE {"schedule --config"}
    [] e.op = "query" -> IF e.fault \/ QueryOK(q, e) THEN {} ELSE {"query"}
    [] e.op = "list" -> IF e.fault \/ ListOK(q, e) THEN {} ELSE {"list"}
    [] e.op = "trouble" -> {e.what}
    [] OTHER -> {}
Apply(e) ==
  CASE e.op \in {"set", "schedule", "both", "unschedule"} -> [q EXCEPT !.cfgs = e.cfgs, !.nx = e.nx, !.n = e.n]
    [] e.op = "mine" -> [q EXCEPT !.n = e.n]
    [] OTHER -> q
Fresh(e) == [Start0(e.par, 1) EXCEPT !.n = e.n]
TInit == q = Start0([headsup |-> 0, margin |-> 0], 1) /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN q' = Fresh(e) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<q, skip>>
     ELSE LET d == Why(e) IN
          IF d = {} THEN q' = Apply(e) /\ skip' = FALSE
          ELSE /\ skip' = TRUE /\ q' = q
               /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e,
                          expected |-> [n |-> q.n, cfgs |-> q.cfgs, nx |-> q.nx, earliest |-> Earliest(q, q.n - 1)]]))
TSpec == TInit /\ [][TNext]_<<q, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
