---------------------------- MODULE ConfigTool ----------------------------
(***************************************************************************)
(* The operator's commands for batch configs: "config set-next" brings the *)
(* contract's next config to what a file says, "config schedule" appends   *)
(* it to the scheduled ones, "config query" and "config list" show them.   *)
(*                                                                         *)
(* The contract is that of MainChain; q.n is the number of the open block, *)
(* so the head is q.n - 1. A file is a config; its start block 0 means     *)
(* that the command chooses start block and start batch itself.            *)
(***************************************************************************)
EXTENDS MainChain

MaxN(a, b) == IF a > b THEN a ELSE b
Notice(q) == MaxN(LastCfg(q).span, q.par.headsup)
(* a chosen start leaves the contract's period of notice, and some blocks to make the change in *)
Earliest(q, head) == head + Notice(q) + q.par.margin
Seamless(q, c) ==
  LET a == LastCfg(q) IN
  IF Active(a) THEN c.sbi > a.sbi /\ c.sb = a.sb + a.span * (c.sbi - a.sbi) ELSE c.sbi = a.sbi
AutoOK(q, head, c) ==
  /\ Seamless(q, c)
  /\ c.sb >= Earliest(q, head)
  /\ c.sb <= MaxN(Earliest(q, head), LastCfg(q).sb) + LastCfg(q).span + 1
Auto(f) == f.sb = 0
(* what the next config may be after it was set from file f by a command that saw the given head *)
Target(q, head, f, c) == IF Auto(f) THEN c = [f EXCEPT !.sb = c.sb, !.sbi = c.sbi] /\ AutoOK(q, head, c) ELSE c = f

Scheduled(q) == [q EXCEPT !.cfgs = Append(@, q.nx), !.nx = NoCfg]

(* The outcome of a command: ok, the next config and the scheduled ones afterwards; n: the open block afterwards.
   bad: the file, the key or another argument is of no use; fault: the node failed in between. *)
SetOK(q, e) ==
  /\ e.cfgs = q.cfgs
  /\ IF e.bad THEN ~e.ok /\ e.nx = q.nx
     ELSE IF e.from # Owner THEN e.nx = q.nx /\ (e.ok => Target(q, q.n - 1, e.file, q.nx))
     ELSE IF e.ok THEN Target(q, q.n - 1, e.file, e.nx)
     ELSE e.fault /\ \A f \in DOMAIN e.nx : f \in {"sb", "sbi", "kp"} \/ e.nx[f] \in {q.nx[f], e.file[f]}
Same0(q, e) == e.cfgs = q.cfgs /\ e.nx = q.nx
ScheduleAllowed(q, e) ==
  IF e.bad THEN ~e.ok /\ Same0(q, e)
  ELSE LET may == e.from = Owner /\ ScheduleOK(q)
           done == e.cfgs = Scheduled(q).cfgs /\ e.nx = NoCfg IN
       IF e.ok THEN may /\ done ELSE (~may /\ Same0(q, e)) \/ (e.fault /\ (Same0(q, e) \/ (may /\ done)))
(* both commands in one *)
BothAllowed(q, e) ==
  IF e.ok THEN /\ ~e.bad /\ e.from = Owner /\ e.nx = NoCfg /\ Len(e.cfgs) = Len(q.cfgs) + 1
               /\ LET t == Last(e.cfgs)
                      z == [q EXCEPT !.nx = t, !.n = e.n - 1] IN
                  e.cfgs = Scheduled(z).cfgs /\ ScheduleOK(z) /\ Target(q, q.n - 1, e.file, t)
  ELSE \/ SetOK(q, [e EXCEPT !.ok = FALSE])
       \/ e.cfgs = q.cfgs /\ SetOK(q, [e EXCEPT !.ok = TRUE]) /\ (e.from # Owner \/ e.fault \/ ~ScheduleOK([q EXCEPT !.nx = e.nx, !.n = e.n]))
       \/ e.fault /\ Len(e.cfgs) = Len(q.cfgs) + 1 /\ e.from = Owner /\ Target(q, q.n - 1, e.file, Last(e.cfgs))

(* what is shown: a config's keypers without repetitions *)
Shown(c) == [c EXCEPT !.kp = FoldLeft(LAMBDA l, x : IF x \in ToSet(l) THEN l ELSE Append(l, x), <<>>, c.kp)]
QueryOK(q, e) ==
  LET all == [i \in DOMAIN q.cfgs |-> Shown(q.cfgs[i])] IN
  CASE e.i = "all" -> e.ok /\ e.res = all
    [] e.i = "next" -> e.ok /\ e.res = <<Shown(q.nx)>>
    [] e.i = "last" -> e.ok /\ e.res = <<Last(all)>>
    [] e.i = "number" -> IF e.x < Len(q.cfgs) THEN e.ok /\ e.res = <<all[e.x + 1]>> ELSE ~e.ok /\ e.res = <<>>
    [] OTHER -> ~e.ok /\ e.res = <<>>
Row(c) == [sbi |-> c.sbi, sb |-> c.sb]
ListOK(q, e) == e.ok /\ e.rows = [i \in DOMAIN q.cfgs |-> Row(q.cfgs[i])] /\ e.next = Row(q.nx)
=============================================================================
