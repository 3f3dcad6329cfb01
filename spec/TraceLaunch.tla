----------------------------- MODULE TraceLaunch -----------------------------
(* Validates what the real commands leave on the main chain, in files, and send *)
EXTENDS Launch, Json, IOUtils, TLC
VARIABLES q, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Why(e) ==
  CASE e.op = "deploy" -> IF DeployOK(q, e) THEN {} ELSE {"deploy"}
    [] e.op = "bootstrap" -> IF BootstrapOK(q, e) THEN {} ELSE {"bootstrap"}
    [] e.op = "trouble" -> {e.what}
    [] OTHER -> {}
Apply(e) ==
  CASE e.op \in {"deploy", "own"} -> [q EXCEPT !.reg = e.reg, !.files = e.files, !.sets = IF e.set # 0 THEN Append(@, <<NoConfig>>) ELSE @]
    [] e.op = "cfg" -> [q EXCEPT !.sets[e.set] = Append(@, e.cfg)]
    [] OTHER -> q
TInit == q = Start(1, FALSE) /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN q' = Start(e.files, e.reg) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<q, skip>>
     ELSE LET d == Why(e) IN
          IF d = {} THEN q' = Apply(e) /\ skip' = FALSE
          ELSE /\ skip' = TRUE /\ q' = q
               /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e, expected |-> q]))
TSpec == TInit /\ [][TNext]_<<q, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
