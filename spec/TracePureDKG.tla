---------------------------- MODULE TracePureDKG ----------------------------
(* Validates recorded executions of the real puredkg.PureDKG participants. *)
EXTENDS PureDKG, Json, IOUtils, SequencesExt
VARIABLES l, skip, nodes, pk
tvars == <<l, skip, nodes, pk>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Val(v) == [id |-> v.id, valid |-> v.valid, fits |-> ToSet(v.fits)]
Msg(m) == IF "v" \in DOMAIN m THEN [m EXCEPT !.v = Val(m.v)] ELSE m

After(s, e) ==
  CASE e.op = "start1" -> Deal(s, e.out.c)
    [] e.op = "handle" -> Handle(s, Msg(e.msg))
    [] e.op = "start2" -> Accuse(s)
    [] e.op = "start3" -> Apologize(s)
    [] e.op = "fin" -> Finish(s)
    [] e.op = "result" -> s
Others(s) == {i \in 0..(s.n-1) : i # s.me}
(* what is wrong with a step *)
Why(s, e) ==
  LET o == e.out IN
  IF "panic" \in DOMAIN o THEN {"panic"} ELSE
  CASE e.op = "start1" ->
         (IF o.eon # s.eon \/ o.snd # s.me \/ ~o.deg THEN {"commitment"} ELSE {}) \cup
         (IF ToSet(o.rc) # Others(s) \/ Len(o.rc) # Cardinality(Others(s)) THEN {"receivers"} ELSE {}) \cup
         (IF ~o.fit THEN {"evaluations"} ELSE {})
    [] e.op = "handle" -> (IF o.ok # Takes(s, Msg(e.msg)) THEN {"acceptance"} ELSE {})
    [] e.op = "start2" -> (IF ToSet(o.acc) # Accused(s) \/ Len(o.acc) # Cardinality(Accused(s)) \/ ~o.mine THEN {"accusations"} ELSE {})
    [] e.op = "start3" -> (IF ToSet(o.ap) # Accusers(s) \/ Len(o.ap) # Cardinality(Accusers(s)) \/ ~o.fit THEN {"apologies"} ELSE {})
    [] e.op = "fin" -> {}
    [] e.op = "result" ->
         LET r == Result(s) IN
         IF o.ok # r.ok THEN {"outcome"}
         ELSE IF ~r.ok THEN {}
         ELSE (IF ~\E i \in DOMAIN o.sets : ToSet(o.sets[i]) = {k[1] : k \in r.key} THEN {"contributors"} ELSE {}) \cup
              (IF ~o.good THEN {"key share"} ELSE {}) \cup
              (IF \E p \in pk : p[1] = r.key /\ (p[2] # o.pk \/ p[3] # o.pks) THEN {"agreement"} ELSE {})
TInit == l = 1 /\ skip = TRUE /\ nodes = [i \in {} |-> 0] /\ pk = {}
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN /\ skip' = FALSE /\ pk' = {}
                            /\ nodes' = [i \in 0..(e.n - 1) |-> New(e.eon, e.n, e.t, i)]
     ELSE IF skip THEN UNCHANGED <<skip, nodes, pk>>
     ELSE IF e.op = "combine" THEN
          \* any t members with the same result can decrypt what was encrypted under the common key
          /\ UNCHANGED <<nodes, pk>>
          /\ LET rs == {Result(nodes[e.is[j]]) : j \in DOMAIN e.is}
                 good == Cardinality(rs) = 1 /\ (\A r \in rs : r.ok) /\ Cardinality(ToSet(e.is)) >= nodes[e.is[1]].t IN
             IF good => e.out.ok THEN skip' = FALSE
             ELSE /\ skip' = TRUE
                  /\ PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> {"reconstruction"}, expected |-> [ok |-> TRUE], got |-> e.out]))
     ELSE LET s == nodes[e.i]
              bad == IF "panic" \in DOMAIN e.out THEN {"panic"} ELSE Why(s, e)
              s2 == IF bad = {} THEN After(s, e) ELSE s IN
          /\ nodes' = [nodes EXCEPT ![e.i] = s2]
          /\ pk' = IF e.op = "result" /\ bad = {} /\ e.out.ok THEN pk \cup {<<Result(s).key, e.out.pk, e.out.pks>>} ELSE pk
          /\ skip' = (bad # {})
          /\ bad # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> bad, expected |-> [takes |-> e.op = "handle" /\ Takes(s, Msg(e.msg)), result |-> Result(s), accused |-> Accused(s), accusers |-> Accusers(s)], got |-> e.out]))
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
