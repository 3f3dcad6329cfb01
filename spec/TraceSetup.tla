----------------------------- MODULE TraceSetup -----------------------------
(* Validates what the real commands make of files and money *)
EXTENDS Setup, Json, IOUtils, TLC
VARIABLES q, l, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Money(s) == [a \in {x[1] : x \in ToSet(s)} |-> (CHOOSE x \in ToSet(s) : x[1] = a)[2]]
WithBal(e) == [e EXCEPT !.bal = Money(e.bal)]
Why(e) ==
  CASE e.op = "init" -> IF InitOK(q, e) THEN {} ELSE {"init"}
    [] e.op = "prepare" -> IF PrepareOK(q, e) THEN {} ELSE {"prepare configs"}
    [] e.op = "fund" -> IF FundOK(q, WithBal(e)) THEN {} ELSE {"prepare fund"}
    [] e.op = "unfund" -> IF UnfundOK(q, WithBal(e)) THEN {} ELSE {"prepare unfund"}
    [] e.op = "balances" -> IF BalancesOK(q, e) THEN {} ELSE {"prepare fund query"}
    [] e.op = "trouble" -> {e.what}
    [] OTHER -> {}
Apply(e) ==
  LET z == [q EXCEPT !.ids = e.ids] IN
  CASE e.op \in {"init", "files"} -> [z EXCEPT !.nodes[e.root] = e.node]
    [] e.op \in {"prepare", "dropped"} -> [z EXCEPT !.dirs[e.dir] = e.after]
    [] e.op \in {"fund", "unfund", "money"} -> [z EXCEPT !.bal = Money(e.bal)]
    [] OTHER -> z
Fresh(e) == [Start(e.par.roots, e.par.dirs, e.par.kps, Money(e.bal)) EXCEPT !.ids = e.ids]
Shown(e) ==
  CASE e.op = "init" -> [node |-> q.nodes[e.root]]
    [] e.op = "prepare" -> [dir |-> q.dirs[e.dir]]
    [] OTHER -> [bal |-> {<<a, q.bal[a]>> : a \in DOMAIN q.bal}]
TInit == q = Start(1, 1, 1, <<>>) /\ l = 1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN q' = Fresh(e) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<q, skip>>
     ELSE LET d == Why(e) IN
          IF d = {} THEN q' = Apply(e) /\ skip' = FALSE
          ELSE /\ skip' = TRUE /\ q' = q
               /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> d, got |-> e, expected |-> [ids |-> q.ids, was |-> Shown(e)]]))
TSpec == TInit /\ [][TNext]_<<q, l, skip>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
