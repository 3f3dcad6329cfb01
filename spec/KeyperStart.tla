----------------------------- MODULE KeyperStart -----------------------------
(***************************************************************************)
(* Starting the keyper command: which configurations it takes, whose       *)
(* identity it then has, which nodes and files it uses, how it ends.       *)
(*                                                                         *)
(* A start is described by where its file is (config: named, home: the     *)
(* default place, nothing: there is none, missing: named but not there,    *)
(* syntax: not TOML) and by what file and environment say of each field:   *)
(* good, other (also right, but different), none, bad; for the signing key *)
(* also stranger (not of a keyper).                                        *)
(*                                                                         *)
(* d.db      the databases, by directory: none, ok, bad                    *)
(* d.told    those whose keyper has announced itself                       *)
(* d.there   the keypers the chain knows of                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Dirs == {"cfg/db", "home/.config/shutter/db", "abs", "cfg", "home/.config/shutter", "cwd", "gone"}
Start == [db |-> [x \in Dirs |-> "none"], told |-> {}, there |-> {}]
Keypers == {"good", "other"}
HasFile(e) == e.file \in {"config", "home"}
(* the environment overrides the file *)
Value(e, f) == IF f \in DOMAIN e.e /\ e.e[f] # "none" THEN e.e[f] ELSE IF HasFile(e) THEN e.f[f] ELSE "none"
Keys == {"SigningKey", "EncryptionKey", "ValidatorSeed"}
(* what a relative directory is relative to is where the file is *)
Dir(e) ==
  LET v == IF HasFile(e) THEN e.f["DBDir"] ELSE "none" IN
  CASE v = "other" -> "abs" [] v = "bad" -> "gone"
    [] e.file = "config" -> IF v = "good" THEN "cfg/db" ELSE "cfg"
    [] e.file = "home" -> IF v = "good" THEN "home/.config/shutter/db" ELSE "home/.config/shutter"
    [] OTHER -> "cwd"
Wrong(e) ==
  \/ e.file \in {"missing", "syntax"}
  \/ \E f \in Keys \cup {"EthereumURL"} : Value(e, f) \in {"none", "bad"}
  \/ \E f \in {"ShuttermintURL", "Addr", "GasPriceMultiplier", "DKGPhaseLength"} : Value(e, f) = "bad"
Price(e) == IF Value(e, "GasPriceMultiplier") = "other" THEN 20 ELSE 15
Announced(e) == SelectSeq(e.sent, LAMBDA m : m.k = "checkin")
Must(d, e) == Value(e, "SigningKey") \in Keypers \ d.there /\ Dir(e) \notin d.told
Could(d, e) == Value(e, "SigningKey") \in Keypers \ d.there
StartOK(d, e) ==
  IF Wrong(e) \/ d.db[Dir(e)] = "bad" \/ Dir(e) = "gone"
  THEN /\ e.out = "refused" \/ (e.out = "crash" /\ Dir(e) = "gone" /\ ~Wrong(e)) \* it cannot go on without its files
       /\ e.sent = <<>> /\ e.db = <<>> /\ e.extra = <<>> /\ e.gas = 0
       /\ Wrong(e) => e.tm = <<>> /\ e.eth = <<>>
  ELSE /\ e.out = "runs" /\ e.bye
       /\ e.tm \in {<<>>, <<Value(e, "ShuttermintURL")>>} /\ e.eth = <<Value(e, "EthereumURL")>>
       /\ e.db = <<Dir(e)>> \/ (e.db = <<>> /\ d.db[Dir(e)] = "ok")
       /\ e.extra = <<>>
       /\ \A i \in DOMAIN e.sent : e.sent[i].by = Value(e, "SigningKey")
       /\ Value(e, "SigningKey") = "stranger" => e.sent = <<>>
       /\ \A i \in DOMAIN Announced(e) : Announced(e)[i].val = Value(e, "ValidatorSeed") /\ Announced(e)[i].enc = Value(e, "EncryptionKey")
       /\ Len(Announced(e)) <= 1 /\ (Announced(e) # <<>> => Could(d, e)) /\ (Must(d, e) => Announced(e) # <<>>)
       /\ e.gas \in {0, Price(e)}
After(d, e) ==
  IF e.op = "spoil" THEN [d EXCEPT !.db[e.db] = IF e.how = "remove" THEN "none" ELSE "bad", !.told = @ \ {e.db}]
  ELSE IF e.op # "start" \/ e.out # "runs" THEN d
  ELSE [d EXCEPT !.db[Dir(e)] = "ok", !.told = IF Announced(e) # <<>> THEN @ \cup {Dir(e)} ELSE @,
                 !.there = IF Announced(e) # <<>> THEN @ \cup {Value(e, "SigningKey")} ELSE @]
=============================================================================
