--------------------------- MODULE MCKeyperLife ---------------------------
(* All lives with up to N decisions and LIVES restarts; VARIANT picks the order in which the two files
   are written and how the counter is kept, to see that the properties tell the right one apart. *)
EXTENDS KeyperLife, Json, TLC
CONSTANTS N, LIVES, VARIANT, EMIT
VARIABLES f, p, done, sent, lives, world, dup, ans, hist
sv == <<f, p, done, sent, lives, world, dup>>
mv == <<sv, ans, hist>>
(* what a run of the real keyper is told: when to stop it, and how the first message is answered before that *)
Ats == <<"", "state", "queue", "send", "ack", "idle">>
Anss == <<"ok", "err", "after">>
Plan == [i \in 1..18 |-> [at |-> Ats[1 + ((i - 1) \div 3)], ans |-> Anss[1 + ((i - 1) % 3)]]]
Step(at) == hist' = Append(hist, CHOOSE i \in DOMAIN Plan : Plan[i].at = at /\ Plan[i].ans = ans) /\ ans' = "ok"
(* world: how many decisions the chains call for so far; sent[i]: how often decision i was sent after it was done *)
Dead == [up |-> FALSE, at |-> "idle", n |-> 0, pend |-> {}, om |-> -1]
Init == ans = "ok" /\ hist = <<>> /\ f = NoFiles /\ p = Born(NoFiles) /\ done = {} /\ sent = {} /\ lives = 0 /\ world = 0 /\ dup = FALSE
Grow == world < N /\ world' = world + 1 /\ UNCHANGED <<f, p, done, sent, lives, dup>>
(* a keyper decides whatever its state does not have yet *)
DoDecide == p.up /\ p.at = "idle" /\ p.n <= world /\ p' = Decided(p, world - p.n) /\ UNCHANGED <<f, done, sent, lives, world, dup>>
DoSave == /\ p.up /\ p.at = (IF VARIANT = "queue_first" THEN "handed" ELSE "decided")
          /\ f' = (IF VARIANT = "queue_first" THEN [f EXCEPT !.n = p.n, !.ctr = p.n]
                   ELSE IF VARIANT = "forgets" THEN [f EXCEPT !.n = p.n, !.ctr = p.n] ELSE SaveState(f, p))
          /\ p' = [p EXCEPT !.at = IF VARIANT = "queue_first" THEN "idle" ELSE "saved"] /\ UNCHANGED <<done, sent, lives, world, dup>>
DoHand == /\ p.up /\ p.at = (IF VARIANT = "queue_first" THEN "decided" ELSE "saved")
          /\ f' = Hand(f, p)
          /\ p' = [Handed(f, p) EXCEPT !.at = IF VARIANT = "queue_first" THEN "handed" ELSE "idle"] /\ UNCHANGED <<done, sent, lives, world, dup>>
(* the worker: the first of the queue *)
Send == p.up /\ p.om = -1 /\ p.pend # {} /\ p' = [p EXCEPT !.om = Min(p.pend)] /\ sent' = sent \cup {Min(p.pend)} /\ UNCHANGED <<f, done, lives, world, dup>>
Answer == p.up /\ p.om >= 0 /\ done' = done \cup {p.om} /\ UNCHANGED <<f, p, sent, lives, world>> /\ dup' = (dup \/ \E i \in done : i > p.om /\ p.om \notin done)
Fail == p.up /\ p.om >= 0 /\ p.om \notin done /\ p' = [p EXCEPT !.om = -1] /\ UNCHANGED <<f, done, sent, lives, world, dup>>
Remove == /\ p.up /\ p.om \in done /\ p' = [p EXCEPT !.om = -1, !.pend = @ \ {p.om}]
          /\ f' = [f EXCEPT !.pend = @ \ {p.om}] /\ UNCHANGED <<done, sent, lives, world, dup>>
Crash == p.up /\ lives < LIVES /\ p' = Dead /\ lives' = lives + 1 /\ UNCHANGED <<f, done, sent, world, dup>>
Start == ~p.up /\ p' = Born(f) /\ UNCHANGED <<f, done, sent, lives, world, dup>>
Quiet == p.up /\ p.at = "idle" /\ p.n = world /\ p.pend = {} /\ f.n = world
Where == IF p.at = "decided" THEN "state" ELSE IF p.at = "saved" THEN "queue" ELSE IF p.om < 0 THEN "idle" ELSE IF p.om \in done THEN "ack" ELSE "send"
Next == \/ (DoDecide \/ DoSave \/ DoHand \/ Send \/ Answer \/ Remove \/ Start) /\ UNCHANGED <<ans, hist>>
        \/ Fail /\ UNCHANGED hist /\ ans' \in {"err", "after"}
        \/ Crash /\ Step(Where)
        \/ Grow /\ IF Quiet /\ world > 0 THEN Step("") ELSE UNCHANGED <<ans, hist>>
Spec == Init /\ [][Next]_mv
View == <<sv, ans>>
Emit == EMIT /\ hist' # hist => PrintT("T " \o ToString(hist') \o " 1")
ASSUME EMIT => PrintT("OPS " \o ToJson(Plan)) /\ PrintT("GENESIS " \o ToJson([x |-> 1]))
(* --------------------------- properties --------------------------- *)
NoLoss == \A i \in 0..(f.n - 1) : Kept(f, i, done)
(* what was sent or done is on record: it is never decided a second time *)
NoneTwice == \A i \in sent \cup done : i < f.n
OnDisk == FilesOK(f)
Ordered == ~dup
Changes == [][MayBecome(f, f', done')]_mv
(* once the keyper is left alone everything the chains called for has been done *)
AllDone == Quiet => done = 0..(world - 1)
(* witnesses: these must be reachable *)
W1 == ~(lives = LIVES /\ Quiet /\ world = N)
W2 == ~(~p.up /\ f.cur < f.n)
W3 == ~(~p.up /\ \E i \in done : i \in f.pend)
===========================================================================
