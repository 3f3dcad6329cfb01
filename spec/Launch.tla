------------------------------- MODULE Launch -------------------------------
(***************************************************************************)
(* Launching a Shutter instance: "deploy" puts one set of contracts on the *)
(* main chain that know each other, and names them in a file; "bootstrap"  *)
(* reads one config of the set a file names and tells a new shuttermint    *)
(* chain of it, first the config and then, if that was taken, its start.   *)
(*                                                                         *)
(* q.reg    the registry that the deposit token needs is there             *)
(* q.sets   the complete sets: the configs scheduled in each, from 0 on    *)
(* q.files  the set each file names; 0: no such file, -1: something else   *)
(* Numbers that may be large are strings; a key is its number.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

HeadsUp == "20"
Appeal == "20"
Key(k) == "key" \o ToString(k)
(* what a set's contracts say of themselves *)
Wiring(k) ==
  [Config |-> [owner |-> Key(k), headsup |-> HeadsUp, n |-> "1"],
   KeyBroadcast |-> [config |-> "Config"],
   FeeBank |-> [zero |-> "0"],
   Batcher |-> [owner |-> Key(k), config |-> "Config", bank |-> "FeeBank", fee |-> "0"],
   Token |-> [symbol |-> "18", owned |-> TRUE],
   Deposit |-> [token |-> "Token", slasher |-> "KeyperSlasher"],
   Executor |-> [config |-> "Config", batcher |-> "Batcher", deposit |-> "Deposit", done |-> "0"],
   KeyperSlasher |-> [appeal |-> Appeal, config |-> "Config", executor |-> "Executor", deposit |-> "Deposit"],
   TargetProxy |-> [executor |-> "Executor"],
   Target |-> [executor |-> "TargetProxy"]]
NoConfig == [start |-> "0", thr |-> "0", kp |-> <<>>]

(* deploy. e.set: the number of the complete set that has been printed, 0: none; e.sent: transactions *)
DeployOK(q, e) ==
  LET kept(S) == \A i \in DOMAIN q.files : i \notin S => e.files[i] = q.files[i] IN
  /\ q.reg => e.reg
  /\ e.price                                                    \* the price asked for or suggested is paid, no other
  /\ e.set \in {0, Len(q.sets) + 1}
  /\ e.set # 0 => e.wiring = Wiring(e.from)
  /\ CASE e.bad -> ~e.ok /\ e.sent = 0 /\ kept({})
       [] e.poor -> ~e.ok /\ e.set = 0 /\ kept({})
       [] e.ok -> /\ e.set # 0 /\ e.reg /\ e.made = Cardinality(DOMAIN e.wiring) /\ ~e.unwritable
                  /\ e.sent = e.made + (IF q.reg THEN 0 ELSE 2)
                  /\ kept({e.file}) /\ (e.file # 0 => e.files[e.file] = e.set)
       [] OTHER -> /\ e.fault \/ ~e.rich \/ e.unwritable \/ (e.noerc /\ ~q.reg)
                   /\ kept({})
                   /\ (e.noerc => e.reg = q.reg)

(* bootstrap *)
Index(q, e) == IF e.i < 0 THEN Len(q.sets[e.set]) - 1 ELSE e.i
Once(s) == FoldLeft(LAMBDA a, k : IF Contains(a, k) THEN a ELSE Append(a, k), <<>>, s) \* each keyper once, where it is first
ConfigMsg(q, e) ==
  LET c == q.sets[e.set][Index(q, e) + 1] IN
  [k |-> "config", from |-> e.from, chain |-> TRUE, set |-> e.set, i |-> ToString(Index(q, e)), start |-> c.start, thr |-> c.thr, kp |-> Once(c.kp), started |-> FALSE, updated |-> FALSE]
StartedMsg(q, e) == [k |-> "started", from |-> e.from, chain |-> TRUE, i |-> ToString(Index(q, e))]
BootstrapOK(q, e) ==
  /\ e.files = q.files /\ e.txs = 0
  /\ IF e.bad \/ Index(q, e) >= Len(q.sets[e.set]) THEN ~e.ok /\ e.sent = <<>>
     ELSE \/ e.fault /\ ~e.ok /\ e.sent = <<>>
          \/ ~e.taken[1] /\ ~e.ok /\ e.sent = <<ConfigMsg(q, e)>>
          \/ e.taken[1] /\ (e.ok <=> e.taken[2]) /\ e.sent = <<ConfigMsg(q, e), StartedMsg(q, e)>>

Start(nfiles, reg) == [reg |-> reg, sets |-> <<>>, files |-> [i \in 1..nfiles |-> 0]]
=============================================================================
