------------------------------- MODULE MCBPath -------------------------------
(* All paths of up to the full length for a small byte: the packed operations   *)
(* implement the operations on sequences, and the encoding is one-to-one.       *)
EXTENDS BPath, TLC
RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {<<>>} ELSE LET P == Paths(n - 1) IN P \cup {Append(p, b) : p \in {x \in P : Len(x) = n - 1}, b \in {0, 1}}
All == Paths(MaxLen)
Encs == [p \in All |-> Enc(p)]
VARIABLE p
Init == p = <<>>
Next == Len(p) < MaxLen /\ \E b \in {0, 1} : p' = Append(p, b)
Inv == /\ LengthI(Enc(p)) = Len(p)
       /\ \A i \in 0..(Len(p) - 1) : AtI(Enc(p), i) = At(p, i)
       /\ \A a, b \in 0..Len(p) : SliceI(Enc(p), a, b) = Enc(Slice(p, a, b))
       /\ \A q \in All : Len(p) + Len(q) <= MaxLen => JoinI(Enc(p), Enc(q)) = Enc(Join(p, q))
       /\ \A q \in All : Enc(p) = Encs[q] => p = q
=============================================================================
