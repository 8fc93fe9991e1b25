-------------------------------- MODULE BPath --------------------------------
(* Binary paths: sequences over {0,1} of length 0..2^W, W being the width of a  *)
(* byte (8 in the implementation). The operations on sequences are the          *)
(* specification; Enc and the operations ending in I follow the implementation, *)
(* which packs the sequence into bytes after a length byte, 0 standing for the  *)
(* full length and the empty byte string for the empty path.                    *)
EXTENDS Integers, Sequences

CONSTANT W
MaxLen == 2^W

IsPath(p) == Len(p) <= MaxLen /\ \A i \in 1..Len(p) : p[i] \in {0, 1}

\* The specification: bits are numbered from 0, a slice includes its first and excludes its last bound
At(p, i) == p[i + 1]
Slice(p, a, b) == IF b <= a THEN <<>> ELSE SubSeq(p, a + 1, b)
Join(p, q) == p \o q

------------------------------------------------------------------------------
RECURSIVE ByteVal(_, _)
ByteVal(p, i) == IF i = 0 THEN 0 ELSE 2 * ByteVal(p, i - 1) + (IF i <= Len(p) THEN p[i] ELSE 0)
NBytes(n) == (n + W - 1) \div W
Enc(p) == IF p = <<>> THEN <<>>
          ELSE <<Len(p) % MaxLen>> \o [j \in 1..NBytes(Len(p)) |-> ByteVal(SubSeq(p, (j - 1) * W + 1, Len(p)), W)]

LengthI(b) == IF b = <<>> THEN 0 ELSE IF b[1] = 0 THEN MaxLen ELSE b[1]
AtI(b, i) == (b[2 + (i \div W)] \div 2^(W - 1 - (i % W))) % 2
Pack(n, F(_)) == IF n = 0 THEN <<>>
                 ELSE <<n % MaxLen>> \o [j \in 1..NBytes(n) |-> ByteVal([i \in 1..W |-> IF (j - 1) * W + i <= n THEN F((j - 1) * W + i - 1) ELSE 0], W)]
SliceI(b, x, y) == IF y <= x THEN <<>> ELSE LET F(i) == AtI(b, x + i) IN Pack(y - x, F)
JoinI(a, b) == LET F(i) == IF i < LengthI(a) THEN AtI(a, i) ELSE AtI(b, i - LengthI(a)) IN Pack(LengthI(a) + LengthI(b), F)
=============================================================================
