------------------------------- MODULE MCWire -------------------------------
(* Strings put together from pieces: versions, points (right and wrong ones), blocks, single bytes and
   cut pieces, given to every decoder. *)
EXTENDS Wire, TLC, Json, FiniteSets
CONSTANTS PIECES, EMIT
VARIABLES d, form, s, ops
mv == <<d, form, s, ops>>
Piece(kind, len, ok, start) == [kind |-> kind, len |-> len, ok |-> ok, start |-> start]
(* content: start marks the piece's first byte, so that pieces can be told apart *)
PSeq == <<Piece("v3", 1, FALSE, 3), Piece("v2", 1, FALSE, 2), Piece("zero", 1, FALSE, 0), Piece("blk", 32, FALSE, 50), Piece("cut", 31, FALSE, 51),
          Piece("point", 0, TRUE, 130), Piece("infinity", 0, TRUE, 192), Piece("off", 0, FALSE, 131), Piece("sub", 0, FALSE, 132), Piece("flag", 0, FALSE, 4), Piece("big", 0, FALSE, 159),
          Piece("short", -1, FALSE, 133), Piece("num", 32, FALSE, 48), Piece("bignum", 32, FALSE, 255)>>
Pairs == SetToSeq({<<x, f>> : x \in Decoders, f \in {"bin", "gob", "text"}})
Legal == SelectSeq(Pairs, LAMBDA p : p[2] \in Forms(p[1]))
Ops == [i \in DOMAIN Legal |-> [k |-> "decoder", d |-> Legal[i][1], form |-> Legal[i][2]]] \o [i \in DOMAIN PSeq |-> [k |-> "piece", kind |-> PSeq[i].kind]]
Size(p) == IF p.len = 0 THEN PointSize(d) ELSE IF p.len = -1 THEN PointSize(d) - 1 ELSE p.len
Expand(p) == [i \in 1..Size(p) |-> IF i = 1 THEN p.start ELSE 7]
Raw == FoldLeft(LAMBDA a, i : a \o Expand(PSeq[s[i]]), <<>>, [i \in DOMAIN s |-> i])
Str == IF form = "text" THEN ToText(Raw) ELSE Raw
Offset == IF d = "message" THEN 1 ELSE 0
Pt == IF PointSize(d) = 0 \/ Len(Raw) < Offset THEN <<>>
      ELSE [i \in 1..((Len(Raw) - Offset) \div PointSize(d)) |->
              \E j \in DOMAIN s : PSeq[s[j]].ok /\ FoldLeft(LAMBDA a, x : a + Size(PSeq[s[x]]), 0, [x \in 1..(j - 1) |-> x]) = Offset + (i - 1) * PointSize(d)]
Init == d = "" /\ form = "" /\ s = <<>> /\ ops = <<>>
Needed(p) == p.len > 0 \/ PointSize(d) > 0
Next == \E i \in DOMAIN Ops :
  /\ ops' = Append(ops, i)
  /\ CASE Ops[i].k = "decoder" -> d = "" /\ d' = Ops[i].d /\ form' = Ops[i].form /\ UNCHANGED s
       [] OTHER -> d # "" /\ Len(s) < PIECES /\ LET j == i - Len(Legal) IN Needed(PSeq[j]) /\ s' = Append(s, j) /\ UNCHANGED <<d, form>>
MCSpec == Init /\ [][Next]_mv
View == <<d, form, s>>
Emit == EMIT => PrintT("T " \o ToString(ops') \o " 1")
ASSUME EMIT => PrintT("OPS " \o ToJson(Ops)) /\ PrintT("GENESIS " \o ToJson([x |-> 0]))
(* what is accepted is written back the same way, and that is accepted again *)
Canonical == d # "" /\ Accept(d, form, Str, Pt) =>
  /\ (d # "eon secret key share" => Rewritten(d, form, Str) = Str)
  /\ Rewritten(d, form, Rewritten(d, form, Str)) = Rewritten(d, form, Str)
  /\ Accept(d, form, Rewritten(d, form, Str), Pt)
NeverMessage == ~(d = "message" /\ Accept(d, form, Str, Pt) /\ Len(s) = 3)
NeverGammas == ~(d = "gammas" /\ Accept(d, form, Str, Pt) /\ Len(s) = 3)
=============================================================================
