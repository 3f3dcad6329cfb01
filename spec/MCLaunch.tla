------------------------------ MODULE MCLaunch ------------------------------
(* The commands as the tool performs them, transaction by transaction. *)
EXTENDS Launch, Json, TLC
CONSTANTS CMDS, BUG, EMIT
VARIABLES q, chain, msgs, last, cnt, ops
mv == <<q, chain, msgs, last, cnt, ops>>
CONTRACTS == 10
Ops == <<[k |-> "deploy", noerc |-> FALSE, fail |-> 0, file |-> 1, bad |-> FALSE], [k |-> "deploy", noerc |-> TRUE, fail |-> 0, file |-> 2, bad |-> FALSE],
         [k |-> "deploy", noerc |-> FALSE, fail |-> 1, file |-> 1, bad |-> FALSE], [k |-> "deploy", noerc |-> FALSE, fail |-> 5, file |-> 2, bad |-> FALSE],
         [k |-> "deploy", noerc |-> FALSE, fail |-> 12, file |-> 1, bad |-> FALSE], [k |-> "deploy", noerc |-> FALSE, fail |-> 0, file |-> 2, bad |-> TRUE],
         [k |-> "cfg"],
         [k |-> "bootstrap", file |-> 1, i |-> -1, bad |-> FALSE, ans |-> <<"ok", "ok">>], [k |-> "bootstrap", file |-> 2, i |-> -1, bad |-> FALSE, ans |-> <<"ok", "ok">>],
         [k |-> "bootstrap", file |-> 1, i |-> 0, bad |-> FALSE, ans |-> <<"ok", "no">>], [k |-> "bootstrap", file |-> 1, i |-> 1, bad |-> FALSE, ans |-> <<"no", "ok">>],
         [k |-> "bootstrap", file |-> 1, i |-> 1, bad |-> FALSE, ans |-> <<"ok", "ok">>], [k |-> "bootstrap", file |-> 1, i |-> 2, bad |-> TRUE, ans |-> <<"ok", "ok">>]>>
NoEvent == [op |-> ""]
(* chain: the contracts there are, per attempt to deploy *)
Init == q = Start(2, FALSE) /\ chain = <<>> /\ msgs = <<>> /\ last = NoEvent /\ cnt = 0 /\ ops = <<>>
DoDeploy(o) ==
  LET reg == q.reg \/ ~o.noerc
      first == IF q.reg \/ o.noerc THEN 0 ELSE 2
      (* the token's creation cannot be estimated without the registry; it is the fifth contract *)
      stop == IF o.fail > 0 THEN o.fail - 1 ELSE IF reg THEN 99 ELSE 4
      made == IF o.bad THEN 0 ELSE IF stop >= first + CONTRACTS THEN CONTRACTS ELSE IF stop > first THEN stop - first ELSE 0
      sent == IF o.bad THEN 0 ELSE IF stop >= first + CONTRACTS THEN first + CONTRACTS ELSE stop
      full == made = CONTRACTS
      z == [q EXCEPT !.reg = @ \/ (~o.noerc /\ ~o.bad /\ sent >= 2), !.sets = IF full THEN Append(@, <<NoConfig>>) ELSE @,
                     !.files[o.file] = IF full \/ (BUG = "early" /\ made > 0) THEN Len(q.sets) + 1 ELSE @] IN
  /\ q' = z /\ chain' = IF made > 0 THEN Append(chain, made) ELSE chain
  /\ last' = [op |-> "deploy", from |-> 0, file |-> o.file, noerc |-> o.noerc, bad |-> o.bad, fault |-> o.fail > 0, unwritable |-> FALSE, ok |-> full, sent |-> sent, made |-> made,
              price |-> TRUE, rich |-> TRUE, poor |-> FALSE, reg |-> z.reg, set |-> IF full THEN Len(z.sets) ELSE 0, wiring |-> Wiring(0), files |-> z.files]
  /\ UNCHANGED msgs
DoBootstrap(o) ==
  LET set == q.files[o.file]
      e == [op |-> "bootstrap", set |-> set, i |-> o.i, from |-> 1, taken |-> [j \in 1..2 |-> o.ans[j] = "ok"], bad |-> o.bad \/ set <= 0, fault |-> FALSE, files |-> q.files, txs |-> 0]
      nothing == e.bad \/ Index(q, e) >= Len(q.sets[set])
      sent == IF nothing THEN <<>> ELSE IF BUG = "both" \/ o.ans[1] = "ok" THEN <<ConfigMsg(q, e), StartedMsg(q, e)>> ELSE <<ConfigMsg(q, e)>> IN
  /\ last' = [ok |-> ~nothing /\ o.ans = <<"ok", "ok">>, sent |-> sent] @@ e
  /\ msgs' = msgs \o [j \in DOMAIN sent |-> [m |-> sent[j], taken |-> o.ans[j] = "ok", set |-> set]]
  /\ UNCHANGED <<q, chain>>
Next == \E x \in DOMAIN Ops :
  LET o == Ops[x] IN
  /\ cnt < CMDS /\ cnt' = cnt + 1 /\ ops' = Append(ops, x)
  /\ CASE o.k = "deploy" -> DoDeploy(o)
       [] o.k = "cfg" -> /\ q.sets # <<>>
                         /\ q' = [q EXCEPT !.sets[Len(q.sets)] = Append(@, [start |-> ToString(7 * (Len(@) - 1)), thr |-> "1", kp |-> <<Len(@), 3>>])]
                         /\ last' = NoEvent /\ UNCHANGED <<chain, msgs>>
       [] o.k = "bootstrap" -> DoBootstrap(o)
MCSpec == Init /\ [][Next]_mv
View == <<q, chain, msgs, last, cnt>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS {}")

AsAsked == [][CASE last'.op = "deploy" -> DeployOK(q, last') [] last'.op = "bootstrap" -> BootstrapOK(q, last') [] OTHER -> TRUE]_mv
(* a file names a complete set or nothing; every complete set is there *)
Named == \A i \in DOMAIN q.files : q.files[i] = 0 \/ q.files[i] <= Len(q.sets)
Complete == Len(q.sets) = Cardinality({i \in DOMAIN chain : chain[i] = CONTRACTS})
Registered == q.sets # <<>> => q.reg
(* a start is announced only right after its config has been taken *)
InOrder == \A j \in DOMAIN msgs : msgs[j].m.k = "started" => j > 1 /\ msgs[j - 1].m.k = "config" /\ msgs[j - 1].taken /\ msgs[j - 1].m.i = msgs[j].m.i
(* what is announced is what the contract says *)
Truthful == \A j \in DOMAIN msgs : msgs[j].m.k = "config" => \E c \in DOMAIN q.sets[msgs[j].set] : ToString(c - 1) = msgs[j].m.i /\ q.sets[msgs[j].set][c].kp = msgs[j].m.kp
NeverTwo == Len(q.sets) < 2 \* witnesses
NeverHalf == \A i \in DOMAIN chain : chain[i] = CONTRACTS
NeverStarted == \A j \in DOMAIN msgs : ~(msgs[j].m.k = "started" /\ msgs[j].taken /\ msgs[j].m.i = "1")
=============================================================================
