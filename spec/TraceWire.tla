------------------------------ MODULE TraceWire ------------------------------
(* Validates what the real decoders accept and write back.  What is left in a value after an error must
   be what was there before, or something nobody would take for a valid value. *)
EXTENDS Wire, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
After(e) == e.after \in (IF e.d = "bls secret key" THEN {"same", "invalid", "zero"} ELSE {"same", "invalid"})
Why(e) ==
  IF e.op # "decode" THEN {}
  ELSE IF Accept(e.d, e.form, e.b, e.pt) THEN
    (IF e.res = "ok" THEN (IF e.out = Rewritten(e.d, e.form, e.b) THEN {} ELSE {"written differently"}) \cup (IF e.kept THEN {} ELSE {"shares memory with the input"})
     ELSE {"rejected"})
  ELSE IF e.res = "ok" THEN {"accepted"} ELSE IF e.res # "err" THEN {"crash"} ELSE IF After(e) THEN {} ELSE {"partly changed"}
TInit == l = 1
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l]
         w == Why(e) IN
     w # {} => PrintT("DIVERGENCE " \o ToJson([line |-> l, why |-> w, got |-> e, expected |-> ToString(Accept(e.d, e.form, e.b, e.pt))]))
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
