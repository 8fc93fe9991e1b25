------------------------------ MODULE MCJsonLeaf ------------------------------
(* Laws of leaf inputs of JSON documents, for all small documents.              *)
EXTENDS JsonDocs
VARIABLE d
FieldNames(x) == {x[2][i][1] : i \in 1..Len(x[2])}
Start == <<"start">>
Docs == TLCEval(All)
Hashes == TLCEval([x \in Docs |-> JHash(x)])
Init == d = Start
Next == d = Start /\ d' \in Docs
Inv == d # Start =>
    /\ \A F \in (IF d[1] = "o" THEN SUBSET FieldNames(d) ELSE {}) :
          /\ JHash(Redact(d, F)) = JHash(d)                        \* redaction keeps it
          /\ JHash(Redact(Redact(d, F), FieldNames(d))) = JHash(d)
          /\ Filter(d, FieldNames(d) \ F) = Redact(d, F)
          /\ LET r == MkRedactable(d, "n")
             IN /\ IsRedactable(d, r)
                /\ JHash(Redact(r, F)) = JHash(r)
                /\ Sheddable(Redact(r, F))
                /\ Shed(Redact(r, F)) = <<"o", Without(d[2], F)>>
    /\ Shed(MkRedactable(d, "n")) = d
Distinct == {Hashes[x] : x \in Docs}
ASSUME Cardinality(Distinct) = Cardinality(Docs)                   \* the leaf input determines the document
=============================================================================
