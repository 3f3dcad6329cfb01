------------------------------ MODULE PureDKG ------------------------------
(***************************************************************************)
(* One participant of the distributed key generation, as a function of the *)
(* messages it receives.  Participants are 0..n-1.  Field elements and     *)
(* curve points are abstract: a commitment is a name with a degree flag,   *)
(* an evaluation is [id, valid, fits]: whether it is in the field, and the *)
(* set of commitments it is correct for (towards the participant it is     *)
(* meant for).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Off == 0  Dealing == 1  Accusing == 2  Apologizing == 3  Finalized == 4
None == [id |-> "none", valid |-> FALSE, fits |-> {}]
NoC == "none"

New(eon, n, t, me) ==
  [eon |-> eon, n |-> n, t |-> t, me |-> me, phase |-> Off, own |-> NoC,
   commits |-> [d \in 0..(n-1) |-> NoC], evals |-> [d \in 0..(n-1) |-> None],
   accs |-> {}, apols |-> [k \in {} |-> None]]

Member(s, i) == i \in 0..(s.n - 1)
(* which messages are taken: of this eon, not after their phase, from and about members, the first
   of its kind, well formed *)
Takes(s, m) ==
  m.eon = s.eon /\
  CASE m.t = "pc" -> /\ s.phase <= Dealing /\ Member(s, m.snd)
                     /\ s.commits[m.snd] = NoC /\ m.deg
    [] m.t = "pe" -> /\ s.phase <= Dealing /\ Member(s, m.snd) /\ m.rc = s.me
                     /\ s.evals[m.snd].id = "none" /\ m.v.valid
    [] m.t = "ac" -> /\ s.phase <= Accusing /\ Member(s, m.accuser) /\ Member(s, m.accused)
                     /\ <<m.accuser, m.accused>> \notin s.accs
    [] m.t = "ap" -> /\ s.phase <= Apologizing /\ Member(s, m.accuser) /\ Member(s, m.accused)
                     /\ <<m.accuser, m.accused>> \notin DOMAIN s.apols /\ m.v.valid
PutK(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Handle(s, m) ==
  IF ~Takes(s, m) THEN s
  ELSE CASE m.t = "pc" -> [s EXCEPT !.commits[m.snd] = m.c]
         [] m.t = "pe" -> [s EXCEPT !.evals[m.snd] = m.v]
         [] m.t = "ac" -> [s EXCEPT !.accs = @ \cup {<<m.accuser, m.accused>>}]
         [] m.t = "ap" -> [s EXCEPT !.apols = PutK(@, <<m.accuser, m.accused>>, m.v)]

Deal(s, c) == [s EXCEPT !.phase = Dealing, !.own = c, !.evals[s.me] = [id |-> "own", valid |-> TRUE, fits |-> {c}]]
Fits(s, d, v) == s.commits[d] # NoC /\ s.commits[d] \in v.fits
Accused(s) == {d \in 0..(s.n-1) : d # s.me /\ ~Fits(s, d, s.evals[d])}
Accuse(s) == [s EXCEPT !.phase = Accusing]
Accusers(s) == {k[1] : k \in {x \in s.accs : x[2] = s.me}}
Apologize(s) == [s EXCEPT !.phase = Apologizing]
Finish(s) == [s EXCEPT !.phase = Finalized]

Corrupt(s, d) ==
  \/ s.commits[d] = NoC
  \/ \E k \in DOMAIN s.apols : k[2] = d /\ ~Fits(s, d, s.apols[k])
  \/ \E k \in s.accs : k[2] = d /\ k \notin DOMAIN s.apols
FinalEval(s, d) == IF <<s.me, d>> \in DOMAIN s.apols THEN s.apols[<<s.me, d>>] ELSE s.evals[d]
Contributors(s) == {d \in 0..(s.n-1) : ~Corrupt(s, d)}
Result(s) ==
  LET q == Contributors(s) IN
  IF \/ s.phase # Finalized
     \/ \E d \in q : ~Fits(s, d, FinalEval(s, d))
     \/ Cardinality(q) < s.t
  THEN [ok |-> FALSE, key |-> {}]
  ELSE [ok |-> TRUE, key |-> {<<d, s.commits[d]>> : d \in q}]
=============================================================================
