--------------------------- MODULE MCConfigTool ---------------------------
(* The commands as the tool performs them, against the contract's rules. *)
EXTENDS ConfigTool, Json
CONSTANTS HEADSUP, MARGIN, BLOCKS, CMDS, BUG, EMIT
VARIABLES q, auto, cnt, ops
mv == <<q, auto, cnt, ops>>
Par == [headsup |-> HEADSUP, margin |-> MARGIN]
(* how the tool chooses; the wrong variants forget that a batch span may exceed the notice period,
   or that the last config may not have started *)
Pick(s) ==
  LET a == LastCfg(s)
      e == IF BUG = "notice" THEN s.n - 1 + HEADSUP + MARGIN ELSE Earliest(s, s.n - 1)
      k == IF e > a.sb THEN (e - a.sb + a.span + 1) \div a.span ELSE IF BUG = "future" THEN 0 ELSE 1 IN
  IF ~Active(a) THEN [sb |-> e, sbi |-> a.sbi] ELSE [sb |-> a.sb + k * a.span, sbi |-> a.sbi + k]
File(kind, span) ==
  LET a == LastCfg(q)
      p == Pick(q)
      sp == MaxN(a.span, 1)
      base == [NoCfg EXCEPT !.span = span, !.kp = <<1, 2>>, !.t = 1] IN
  CASE kind = "auto" -> [base EXCEPT !.sb = p.sb, !.sbi = p.sbi]
    [] kind = "later" -> [base EXCEPT !.sb = p.sb + sp, !.sbi = IF Active(a) THEN p.sbi + 1 ELSE p.sbi]
    [] kind = "early" -> [base EXCEPT !.sb = MaxN(1, q.n - 1), !.sbi = a.sbi]
    [] kind = "skew" -> [base EXCEPT !.sb = p.sb + 1, !.sbi = p.sbi + 1]
Set(kind, span, from) == [k |-> "set", kind |-> kind, span |-> span, from |-> from]
Ops == <<Set("auto", 1, 0), Set("auto", 5, 0), Set("auto", 0, 0), Set("later", 2, 0), Set("early", 1, 0), Set("skew", 1, 0), Set("bad", 1, 0), Set("auto", 2, 1),
         [k |-> "schedule", from |-> 0], [k |-> "schedule", from |-> 1], [k |-> "both", kind |-> "auto", span |-> 5, from |-> 0],
         [k |-> "unschedule"], [k |-> "mine", d |-> 1], [k |-> "mine", d |-> 3]>>
Init == q = [Start0(Par, 1) EXCEPT !.n = 1] /\ auto = -1 /\ cnt = 0 /\ ops = <<>>
(* every transaction takes a block *)
DoSet(s, o) == IF o.kind = "bad" \/ o.from # Owner THEN s ELSE [s EXCEPT !.nx = File(o.kind, o.span), !.n = @ + 1]
DoSchedule(s, from) == IF from = Owner /\ ScheduleOK(s) THEN [Scheduled(s) EXCEPT !.n = @ + 1] ELSE s
Next == \E i \in DOMAIN Ops :
  LET o == Ops[i] IN
  /\ ops' = Append(ops, i)
  /\ CASE o.k = "set" -> cnt < CMDS /\ q' = DoSet(q, o) /\ auto' = (IF q' = q THEN auto ELSE IF o.kind = "auto" THEN q.n - 1 ELSE -1) /\ cnt' = cnt + 1
       [] o.k = "schedule" -> cnt < CMDS /\ q' = DoSchedule(q, o.from) /\ auto' = (IF q' = q THEN auto ELSE -1) /\ cnt' = cnt + 1
       [] o.k = "both" -> LET z == DoSet(q, o) IN cnt < CMDS /\ q' = DoSchedule(z, 0) /\ auto' = (IF q'.cfgs = q.cfgs THEN q.n - 1 ELSE -1) /\ cnt' = cnt + 1
       [] o.k = "unschedule" -> LET from == q.n + HEADSUP + 1 IN
            Keep(q.cfgs, from) # q.cfgs /\ q' = [q EXCEPT !.cfgs = Keep(@, from), !.n = @ + 1] /\ auto' = -1 /\ UNCHANGED cnt
       [] o.k = "mine" -> q.n + o.d <= BLOCKS /\ q' = [q EXCEPT !.n = @ + o.d] /\ UNCHANGED <<auto, cnt>>
MCSpec == Init /\ [][Next]_mv
View == <<q, auto, cnt>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson(Par))

(* what the tool chooses is within what the contract and the operator expect ... *)
PickOK == LET p == Pick(q) IN AutoOK(q, q.n - 1, [NoCfg EXCEPT !.sb = p.sb, !.sbi = p.sbi])
(* ... so that the chosen config can be scheduled for some time *)
Schedulable == auto # -1 /\ q.n < auto + MARGIN => ScheduleOK(q)
(* the scheduled configs follow each other without gaps *)
Calendar == \A i \in 1..(Len(q.cfgs) - 1) :
  LET a == q.cfgs[i]
      z == q.cfgs[i + 1] IN
  IF Active(a) THEN a.sbi < z.sbi /\ z.sb = BatchEnd(a, z.sbi - 1) ELSE a.sbi = z.sbi
(* only the owner's commands change anything, and a scheduled config starts after the period of notice *)
OwnerOnly == [][\A i \in {Len(ops')} : Ops[ops'[i]].k \in {"set", "schedule"} /\ Ops[ops'[i]].from # Owner => q'.nx = q.nx /\ q'.cfgs = q.cfgs]_mv
InTime == [][Len(q'.cfgs) > Len(q.cfgs) => Last(q'.cfgs).sb >= q'.n + HEADSUP]_mv
NeverThree == Len(q.cfgs) < 4 \* witnesses
NeverFuture == ~(auto # -1 /\ LastCfg(q).sb > Earliest(q, auto))
NeverLong == ~(auto # -1 /\ LastCfg(q).span > HEADSUP)
=============================================================================
