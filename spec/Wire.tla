-------------------------------- MODULE Wire --------------------------------
(* The encodings of keys, shares, commitments, ciphertexts and aggregate signatures: which byte strings
   (and texts) are accepted, and how what was read is written again.
   b: the bytes; pt[i]: is the i-th point-sized piece the encoding of a point of the right group? *)
EXTENDS Integers, Sequences, SequencesExt
Order == <<115,237,167,83,41,157,125,72,51,57,216,8,9,161,216,5,83,189,164,2,255,254,91,254,255,255,255,255,0,0,0,1>>     \* of the BLS12-381 groups
BnOrder == <<48,100,78,114,225,49,160,41,184,80,69,182,129,129,88,93,40,51,232,72,121,185,112,145,67,225,245,147,240,0,0,1>>  \* of the BN-256 groups
P1 == 48
P2 == 96
Block == 32
Version == 3
PointSize(d) ==
  CASE d \in {"eon public key", "eon public key share", "gammas", "message"} -> P2
    [] d \in {"epoch id", "epoch secret key share", "epoch secret key"} -> P1
    [] d = "bls public key" -> 64
    [] d = "bls signature" -> 128
    [] OTHER -> 0
Forms(d) ==
  CASE d \in {"eon public key", "epoch secret key", "gammas"} -> {"bin", "gob", "text"}
    [] d \in {"eon public key share", "epoch id", "epoch secret key share", "eon secret key share"} -> {"bin", "gob"}
    [] d = "message" -> {"bin", "text"}
    [] d = "block" -> {"text"}
    [] OTHER -> {"bin"}
Decoders == {"message", "eon secret key share", "eon public key share", "eon public key", "epoch id", "epoch secret key share", "epoch secret key", "block", "gammas",
             "bls secret key", "bls public key", "bls signature"}

(* numbers: big-endian, leading zeros do not matter *)
Strip(b) == IF \E i \in DOMAIN b : b[i] # 0 THEN LET i == CHOOSE j \in DOMAIN b : b[j] # 0 /\ \A k \in 1..(j - 1) : b[k] = 0 IN SubSeq(b, i, Len(b)) ELSE <<>>
Less(a, z) == LET x == Strip(a)
                  y == Strip(z) IN
  \/ Len(x) < Len(y)
  \/ Len(x) = Len(y) /\ \E i \in DOMAIN x : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
AllTrue(pt, n) == Len(pt) >= n /\ \A i \in 1..n : pt[i]
Bytes(d, form, b, pt) ==
  CASE d = "message" -> Len(b) >= 1 + P2 + Block /\ (Len(b) - 1 - P2) % Block = 0 /\ b[1] = Version /\ AllTrue(pt, 1)
    [] d = "gammas" -> Len(b) % P2 = 0 /\ AllTrue(pt, Len(b) \div P2)
    [] d = "block" -> Len(b) = Block
    [] d = "eon secret key share" -> IF form = "gob" THEN b = <<>> \/ (b[1] = 2 /\ Less(Tail(b), Order)) ELSE Less(b, Order)
    [] d = "bls secret key" -> Len(b) = 32 /\ Less(b, BnOrder)
    [] OTHER -> Len(b) = PointSize(d) /\ AllTrue(pt, 1)
(* texts are character codes: 0x and pairs of hexadecimal digits, capitals allowed *)
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsText(t) == Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {120, 88} /\ Len(t) % 2 = 0 /\ \A i \in 3..Len(t) : Digit(t[i]) >= 0
FromText(t) == [i \in 1..(Len(t) \div 2 - 1) |-> 16 * Digit(t[2 * i + 1]) + Digit(t[2 * i + 2])]
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
ToText(b) == <<48, 120>> \o [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2] IN HexChar(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]

Accept(d, form, b, pt) == IF form = "text" THEN IsText(b) /\ Bytes(d, form, FromText(b), pt) ELSE Bytes(d, form, b, pt)
(* what is written for what was read from b *)
Rewritten(d, form, b) ==
  CASE form = "text" -> ToText(FromText(b))
    [] d = "eon secret key share" /\ form = "gob" -> <<2>> \o (IF b = <<>> THEN <<>> ELSE Strip(Tail(b)))
    [] d = "eon secret key share" -> Strip(b)
    [] OTHER -> b
=============================================================================
