----------------------------- MODULE MCReplicas -----------------------------
(* Two replicas, blocks of up to two transactions.  The application is an arbitrary deterministic *)
(* function: its state is the sequence of executed transactions.  Shows that the response history  *)
(* contract of Replicas is implied by: deterministic step function + saving whole block states.    *)
EXTENDS Replicas
CONSTANTS MAXH, BUG
VARIABLES mem, disk, chain     \* executed sequence in memory / on disk; chain: blocks
mvars == <<resp, rep, mem, disk, chain>>
R2 == {1, 2}
Blocks == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}
Dig(m) == m                       \* the digest reveals the whole state: strongest observer
MInit == /\ resp = [x \in {} |-> 0] /\ rep = [r \in R2 |-> Fresh]
         /\ mem = [r \in R2 |-> <<>>] /\ disk = [r \in R2 |-> <<>>] /\ chain = <<>>
Produce == /\ Len(chain) < MAXH /\ \E b \in Blocks : chain' = Append(chain, b)
           /\ UNCHANGED <<resp, rep, mem, disk>>
MExec(r) == LET h == rep[r].h + 1  i == (IF rep[r].ph = "commit" THEN 1 ELSE rep[r].pos + 1) IN
  /\ rep[r].ph # "ended" /\ h <= Len(chain) /\ i <= Len(chain[h])
  /\ LET m == Append(mem[r], chain[h][i]) IN
       /\ Allowed(h, i, Dig(m)) = Dig(m)
       /\ Exec(r, h, i, Dig(m)) /\ mem' = [mem EXCEPT ![r] = m] /\ UNCHANGED <<disk, chain>>
MEnd(r) == LET h == rep[r].h + 1 IN
  /\ rep[r].ph # "ended" /\ h <= Len(chain)
  /\ (IF rep[r].ph = "commit" THEN 0 ELSE rep[r].pos) = Len(chain[h])
  /\ LET m == Append(mem[r], "end") IN
       /\ End(r, h, Dig(m)) /\ mem' = [mem EXCEPT ![r] = m] /\ UNCHANGED <<disk, chain>>
MCommit(r) == \E s \in {"ok", "none", "fail"} :
  /\ Commit(r, s) /\ disk' = [disk EXCEPT ![r] = IF s = "ok" THEN mem[r] ELSE @] /\ UNCHANGED <<mem, chain>>
MCrash(r) == /\ Crash(r)
             /\ mem' = [mem EXCEPT ![r] = IF BUG THEN mem[r] ELSE disk[r]] /\ UNCHANGED <<disk, chain>>
MNext == Produce \/ \E r \in R2 : MExec(r) \/ MEnd(r) \/ MCommit(r) \/ MCrash(r)
MSpec == MInit /\ [][MNext]_mvars
(* no step of the application is ever refused: what it would answer is what the chain allows *)
NoContradiction == \A r \in R2 : rep[r].ph # "ended" /\ rep[r].h < Len(chain) =>
  LET h == rep[r].h + 1  i == (IF rep[r].ph = "commit" THEN 1 ELSE rep[r].pos + 1) IN
  /\ i <= Len(chain[h]) => Allowed(h, i, Dig(Append(mem[r], chain[h][i]))) = Dig(Append(mem[r], chain[h][i]))
  /\ i = Len(chain[h]) + 1 => Allowed(h, 0, Dig(Append(mem[r], "end"))) = Dig(Append(mem[r], "end"))
Caught == \A r \in R2 : rep[r].saved < 2      \* witness
=============================================================================
