----------------------------- MODULE TraceSystem -----------------------------
(* Validates what whole instances do: real keyper processes, contracts and users *)
EXTENDS System, Json, IOUtils, TLC
VARIABLES s, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Why(e) ==
  CASE e.op = "share" -> IF ShareOK(s, e) THEN {} ELSE {"share"}
    [] e.op = "exec" -> IF ExecOK(s, e) THEN {} ELSE {"exec " \o e.kind}
    [] e.op = "end" -> IF EndOK(s, e) THEN {} ELSE {"not executed"}
    [] e.op = "trouble" -> {e.what}
    [] OTHER -> {}
Apply(e) ==
  CASE e.op = "block" -> [s EXCEPT !.n = e.n]
    [] e.op = "cfg" -> [s EXCEPT !.cfgs = Append(@, e)]
    [] e.op = "eon" -> [s EXCEPT !.eons = Append(@, e.start)]
    [] e.op = "submit" -> [s EXCEPT !.txs = Append(@, e)]
    [] e.op = "exec" -> [s EXCEPT !.half = @ + 1]
    [] e.op = "busy" -> [s EXCEPT !.busy = e.until]
    [] OTHER -> s
TInit == s = Start(FALSE) /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN s' = Start(e.core) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE LET d == Why(e) IN
          IF d = {} THEN s' = Apply(e) /\ skip' = FALSE
          ELSE /\ skip' = TRUE /\ s' = s
               /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e, expected |-> s]))
TSpec == TInit /\ [][TNext]_<<s, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
