--------------------------- MODULE TraceEpochKey ---------------------------
(* Validates the epoch keys a real epochkg.EpochKG puts together: out.keys lists [e, ok]. *)
EXTENDS EpochKey, Sequences, TLC, Json, IOUtils
VARIABLES l, skip, n, t, got
tvars == <<l, skip, n, t, got>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Good(out, g) == /\ "panic" \notin DOMAIN out
                /\ \A i \in DOMAIN out.keys : out.keys[i].ok
                /\ {out.keys[i].e : i \in DOMAIN out.keys} = Have(g, t)
TInit == l = 1 /\ skip = TRUE /\ n = 0 /\ t = 0 /\ got = [e \in {} |-> {}]
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN skip' = FALSE /\ n' = e.n /\ t' = e.t /\ got' = [x \in {} |-> {}]
     ELSE IF skip THEN UNCHANGED <<skip, n, t, got>>
     ELSE LET g == IF e.op = "share" THEN Take(got, t, e.e, e.snd, e.kind = "valid") ELSE got IN
          /\ got' = g /\ skip' = ~Good(e.out, g) /\ UNCHANGED <<n, t>>
          /\ ~Good(e.out, g) => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> {"epoch key"}, expected |-> [keys |-> Have(g, t)], got |-> e.out]))
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
