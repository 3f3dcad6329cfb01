--------------------------- MODULE MCKeyperStart ---------------------------
(* The command, stage by stage: it reads the file, the environment, what it has stored; then it runs. *)
EXTENDS KeyperStart, Json
CONSTANTS STARTS, BUG, EMIT
VARIABLES d, last, cnt, ops
mv == <<d, last, cnt, ops>>
Fields == <<"SigningKey", "EncryptionKey", "ValidatorSeed", "EthereumURL", "ShuttermintURL", "Addr", "GasPriceMultiplier", "DBDir", "DKGPhaseLength">>
AllGood == [f \in ToSet(Fields) |-> "good"]
NoEnv == [f \in ToSet(Fields) |-> "none"]
Op(file, f, e, gas) == [k |-> "start", file |-> file, f |-> f, e |-> e, gas |-> gas]
Classes(f) == CASE f = "SigningKey" -> <<"other", "stranger", "none", "bad">>
                [] f \in {"Addr", "DKGPhaseLength"} -> <<"bad">>
                [] f = "ShuttermintURL" -> <<"other", "bad">>
                [] OTHER -> <<"other", "none", "bad">>
InEnv(f) == CASE f \in {"GasPriceMultiplier", "DBDir"} -> <<>> [] f \in {"Addr", "DKGPhaseLength"} -> <<"bad">> [] OTHER -> <<"other", "bad">>
Cat(g(_)) == FoldLeft(LAMBDA a, f : a \o g(f), <<>>, Fields)
OddFile(f) == [i \in DOMAIN Classes(f) |-> Op("config", [AllGood EXCEPT ![f] = Classes(f)[i]], NoEnv, f = "GasPriceMultiplier")]
OddEnv(f) == [i \in DOMAIN InEnv(f) |-> Op("home", AllGood, [NoEnv EXCEPT ![f] = InEnv(f)[i]], FALSE)]
Mended(f) == IF Len(InEnv(f)) < 2 THEN <<>> ELSE <<Op("home", [AllGood EXCEPT ![f] = "bad"], [NoEnv EXCEPT ![f] = "good"], FALSE)>>
EnvOnly == [f \in ToSet(Fields) |-> IF f \in {"GasPriceMultiplier", "DBDir"} THEN "none" ELSE "good"]
Lacking(f) == IF f \in Keys \cup {"EthereumURL"} THEN <<Op("nothing", AllGood, [EnvOnly EXCEPT ![f] = "none"], FALSE)>> ELSE <<>>
Spoil(db) == [i \in 1..2 |-> [k |-> "spoil", db |-> db, how |-> <<"remove", "cut">>[i]]]
Ops == <<Op("config", AllGood, NoEnv, TRUE), Op("home", AllGood, NoEnv, FALSE), Op("nothing", AllGood, EnvOnly, FALSE), Op("missing", AllGood, EnvOnly, FALSE), Op("syntax", AllGood, EnvOnly, FALSE),
         Op("home", [AllGood EXCEPT !["DBDir"] = "none"], NoEnv, FALSE)>>
       \o Spoil("cfg/db") \o Spoil("home/.config/shutter/db") \o Cat(OddFile) \o Cat(OddEnv) \o Cat(Mended) \o Cat(Lacking)
Init == d = Start /\ last = [op |-> ""] /\ cnt = 0 /\ ops = <<>>
Run(o) ==
  LET e == [op |-> "start", file |-> o.file, f |-> o.f, e |-> o.e]
      read == o.file \notin {"missing", "syntax"}
      V(f) == IF o.e[f] # "none" THEN o.e[f] ELSE IF o.file \in {"config", "home"} THEN o.f[f] ELSE "none"
      parsed == read /\ \A f \in ToSet(Fields) \ {"DBDir"} : V(f) # "bad"
      complete == parsed /\ (\A f \in Keys : V(f) # "none") /\ V("EthereumURL") # "none"
      loaded == (complete \/ (BUG = "nokeys" /\ parsed)) /\ (d.db[Dir(e)] # "bad" \/ BUG = "anew")
      runs == loaded /\ Dir(e) # "gone"
      says == runs /\ V("SigningKey") \in Keypers /\ (V("SigningKey") \notin d.there \/ BUG = "again") /\ Dir(e) \notin d.told
      z == [out |-> IF runs THEN "runs" ELSE "refused", bye |-> TRUE,
            sent |-> IF says THEN <<[k |-> "checkin", by |-> V("SigningKey"), val |-> V("ValidatorSeed"), enc |-> V("EncryptionKey")]>> ELSE <<>>,
            tm |-> IF runs THEN <<V("ShuttermintURL")>> ELSE <<>>, eth |-> IF runs THEN <<V("EthereumURL")>> ELSE <<>>,
            db |-> IF runs THEN <<Dir(e)>> ELSE <<>>, extra |-> <<>>, gas |-> IF runs /\ o.gas THEN (IF V("GasPriceMultiplier") = "other" THEN 20 ELSE 15) ELSE 0] @@ e IN
  d' = After(d, z) /\ last' = z
Next == \E x \in DOMAIN Ops :
  LET o == Ops[x] IN
  /\ cnt < STARTS /\ cnt' = cnt + 1 /\ ops' = Append(ops, x)
  /\ IF o.k = "spoil" THEN d.db[o.db] = "ok" /\ last' = [op |-> "spoil", db |-> o.db, how |-> o.how] /\ d' = After(d, last')
     ELSE Run(o)
MCSpec == Init /\ [][Next]_mv
View == <<d, last, cnt>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o (IF View' = View THEN " 0" ELSE " 1"))
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS {}")

AsAsked == [][last'.op = "start" => StartOK(d, last')]_mv
(* what cannot be read is never replaced; nobody announces a keyper twice; nobody runs without keys *)
Kept == [][last'.op = "start" => \A x \in Dirs : d.db[x] = "bad" => d'.db[x] = "bad"]_mv
Once == [][last'.op = "start" /\ last'.sent # <<>> => last'.sent[1].by \notin d.there]_mv
Whole == last.op = "start" /\ last.out = "runs" => \A f \in Keys : Value(last, f) \in {"good", "other", "stranger"}
NeverStranger == ~(last.op = "start" /\ last.out = "runs" /\ Value(last, "SigningKey") = "stranger") \* witnesses
NeverSecond == Cardinality(d.there) < 2
NeverEnv == ~(last.op = "start" /\ last.out = "runs" /\ last.file = "nothing")
NeverSpoilt == \A x \in Dirs : d.db[x] # "bad"
=============================================================================
