---------------------------- MODULE TraceActions ----------------------------
(* Validates what the real fx package sends and keeps on disk *)
EXTENDS Actions, SequencesExt, Json, IOUtils, TLC
VARIABLES s, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Why(q, e) ==
  CASE e.op = "send" -> (IF CanSend(q, e.id) THEN {} ELSE {"message not due"}) \cup (IF e.bad = "" THEN {} ELSE {"message: " \o e.bad})
    [] e.op = "submit" -> (IF CanSubmit(q, e.id) THEN {} ELSE {"transaction not due"}) \cup (IF e.bad = "" THEN {} ELSE {"transaction: " \o e.bad})
    [] e.op = "disk" -> LET p == ToSet(e.pend) IN
         (IF p \subseteq q.pend THEN {} ELSE {"queue: done actions come back"}) \cup
         (IF q.pend \ p \subseteq MayDrop(q) THEN {} ELSE {"queue: actions lost"}) \cup
         (IF ToSet(e.fl) = q.fl THEN {} ELSE {"queue: submitted transactions"}) \cup
         (IF e.cur = q.cur THEN {} ELSE {"queue: action numbers"}) \cup
         (IF e.bad = "" THEN {} ELSE {"queue: " \o e.bad})
    [] e.op = "end" -> IF q.pend = {} /\ e.idle THEN {} ELSE {"actions left undone"}
    [] e.op = "trouble" -> {e.what}
    [] OTHER -> {}
Apply(q, e) ==
  CASE e.op = "decide" -> Decide(q, e.acts)
    [] e.op = "run" -> Run(q)
    [] e.op = "send" -> Send(q, e.id)
    [] e.op = "sent" -> Sent(q, e.res)
    [] e.op = "submit" -> Submit(q, e.id)
    [] e.op = "submitted" -> Submitted(q, e.res)
    [] e.op = "mined" -> Mined(q, e.id)
    [] e.op = "world" -> World(q, [nx |-> e.nx, acc |-> ToSet(e.acc), app |-> ToSet(e.app)])
    [] e.op = "disk" -> Drop(q, q.pend \ ToSet(e.pend))
    [] e.op = "down" -> Down(q)
    [] e.op = "up" -> Up(q)
    [] OTHER -> q
TInit == s = Start0 /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN s' = Start0 /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE LET d == Why(s, e) IN
          IF d = {} THEN s' = Apply(s, e) /\ skip' = FALSE
          ELSE /\ skip' = TRUE /\ s' = s
               /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, expected |-> s, got |-> e]))
TSpec == TInit /\ [][TNext]_<<s, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
