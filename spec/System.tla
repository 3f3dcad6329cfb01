------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* A whole instance, as its users see it. Users send transactions to the   *)
(* batch that is open on the main chain, encrypted to the key the keypers  *)
(* have announced, or plain. Keypers give up the secret of a batch when it *)
(* takes no more transactions, and execute the batches one after another:  *)
(* first what was encrypted, then what was not.                            *)
(*                                                                         *)
(* s.n     the newest block of the main chain                              *)
(* s.cfgs  the configs: [start, block, span, timeout, thr, kp]             *)
(* s.eons  the batches the eons start with, in the order of the eons       *)
(* s.txs   what users sent: [b, id, kind, good, wild, e]; good: it is as it*)
(*         should be; wild: encrypted for another batch, so that it reads  *)
(*         as anything, or cannot be read; e: the first batch of the eon   *)
(*         whose key was used                                              *)
(* s.half  how many half steps have been executed                          *)
(* s.core  enough keypers are never stopped                                *)
(* s.busy  keypers had no time to keep up with the main chain up to here   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Start(core) == [n |-> 0, cfgs |-> <<>>, eons |-> <<>>, txs |-> <<>>, half |-> 0, core |-> core, busy |-> 0]
ConfigOf(s, b) == LET k == {i \in DOMAIN s.cfgs : s.cfgs[i].start <= b} IN s.cfgs[CHOOSE i \in k : \A j \in k : j <= i]
HasConfig(s, b) == \E i \in DOMAIN s.cfgs : s.cfgs[i].start <= b
(* the first block in which a batch takes nothing any more *)
End(s, b) == LET c == ConfigOf(s, b) IN c.block + (b - c.start + 1) * c.span
Closed(s, b) == HasConfig(s, b) /\ s.n + 1 >= End(s, b)
Of(s, b, kind) == SelectSeq(s.txs, LAMBDA t : t.b = b /\ t.kind = kind)
(* an eon may replace one whose key has been used: then keypers may not be able to read what was sent before *)
Current(s, t) ==
  \E i \in DOMAIN s.eons : /\ s.eons[i] = t.e
                           /\ \A j \in DOMAIN s.eons : j # i => s.eons[j] # t.e
                           /\ \A j \in i + 1..Len(s.eons) : s.eons[j] > t.b
Good(s, b) == ToSet(SelectSeq(Of(s, b, "cipher"), LAMBDA t : t.good))
May(s, b) == {t.id : t \in Good(s, b)}
Must(s, b) == {t.id : t \in {x \in Good(s, b) : Current(s, x)}}
Wild(s, b) == Len(SelectSeq(Of(s, b, "cipher"), LAMBDA t : t.wild \/ (t.e >= 0 /\ ~Current(s, t))))
Plain(s, b) == LET l == Of(s, b, "plain") IN [i \in DOMAIN l |-> l[i].id]

(* a keyper gives up its share of a batch's secret *)
ShareOK(s, e) == Closed(s, e.b) /\ Contains(ConfigOf(s, e.b).kp, e.by)
(* what is executed is the next half step, and it is what the users sent *)
ExecOK(s, e) ==
  /\ Closed(s, e.b)
  /\ CASE e.kind = "cipher" -> /\ s.half = 2 * e.b
                               /\ LET known == SelectSeq(e.ids, LAMBDA i : i # 0) IN
                                  /\ Len(e.ids) - Len(known) <= Wild(s, e.b)
                                  /\ Cardinality(ToSet(known)) = Len(known)
                                  /\ Must(s, e.b) \subseteq ToSet(known) /\ ToSet(known) \subseteq May(s, e.b)
       [] e.kind = "plain" -> s.half = 2 * e.b + 1 /\ e.ids = Plain(s, e.b)
       [] e.kind = "skip" -> /\ s.half = 2 * e.b /\ s.n >= End(s, e.b) + ConfigOf(s, e.b).timeout
                             /\ ~s.core \/ Must(s, e.b) = {} \/ End(s, e.b) <= s.busy
       [] OTHER -> FALSE
(* nothing that should have been executed is left over *)
EndOK(s, e) == s.half = e.half /\ e.half >= e.want
=============================================================================
