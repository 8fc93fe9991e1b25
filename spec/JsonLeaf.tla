------------------------------- MODULE JsonLeaf -------------------------------
(* JSON documents, what their leaf input covers, redaction and field filtering. *)
(* A document is a tree:                                                         *)
(*   <<"s", text>> string   <<"f", negative, n, k>> the number (-)n / 2^k         *)
(*   <<"g", negative, digits, e>> a number with many binary digits, 0.digits * 2^e *)
(*   <<"t">>, <<"F">> booleans   <<"z">> null   <<"l", <<documents>>>> list       *)
(*   <<"o", << <<name, document>>, ... >> >> object, fields in order of name      *)
(*   <<"r", hash>> a redacted value: it stands for the value with this hash       *)
EXTENDS ObjHash

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
\* Normal form of a number: sign, exponent, binary digits of the fraction (which is in (1/2, 1])
FloatText(neg, n, k) ==
    IF n = 0 THEN "+0:"
    ELSE LET e == Ceil2(n, 0)
         IN (IF neg THEN "-" ELSE "+") \o ToString(e - k) \o ":" \o (IF 2^e = n THEN "1" ELSE "0" \o Digits(n, e))

\* A number that is too long for TLC: its binary digits (the first and last are 1, there are several), and the place of the point
WideText(neg, digits, e) == (IF neg THEN "-" ELSE "+") \o ToString(e) \o ":0" \o digits

RECURSIVE JHash(_)
JHash(d) ==
    CASE d[1] = "s" -> JStr(d[2])
      [] d[1] = "r" -> d[2]
      [] d[1] = "f" -> Sha(Hex("f" \o FloatText(d[2], d[3], d[4])))
      [] d[1] = "g" -> Sha(Hex("f" \o WideText(d[2], d[3], d[4])))
      [] d[1] = "t" -> JTrue
      [] d[1] = "F" -> JFalse
      [] d[1] = "z" -> JNull
      [] d[1] = "l" -> JList([i \in 1..Len(d[2]) |-> JHash(d[2][i])])
      [] d[1] = "o" -> JObj([i \in 1..Len(d[2]) |-> <<d[2][i][1], JHash(d[2][i][2])>>])

\* Replace the values of the named top-level fields by their hashes
Redact(d, names) == <<"o", [i \in 1..Len(d[2]) |-> IF d[2][i][1] \in names THEN <<d[2][i][1], <<"r", JHash(d[2][i][2])>> >> ELSE d[2][i]]>>
\* What a reader restricted to some fields sees
Filter(d, visible) == Redact(d, {d[2][i][1] : i \in 1..Len(d[2])} \ visible)

\* d2 is d made redactable: every field value of every object has become <<nonce, value>>
RECURSIVE IsRedactable(_, _)
IsRedactable(d, d2) ==
    CASE d[1] = "l" -> d2[1] = "l" /\ Len(d[2]) = Len(d2[2]) /\ \A i \in 1..Len(d[2]) : IsRedactable(d[2][i], d2[2][i])
      [] d[1] = "o" -> /\ d2[1] = "o" /\ Len(d[2]) = Len(d2[2])
                       /\ \A i \in 1..Len(d[2]) :
                             LET x == d2[2][i]
                             IN /\ x[1] = d[2][i][1]
                                /\ x[2][1] = "l" /\ Len(x[2][2]) = 2
                                /\ x[2][2][1][1] = "s"
                                /\ IsRedactable(d[2][i][2], x[2][2][2])
      [] OTHER -> d2 = d
\* With given nonces (model checking only)
RECURSIVE MkRedactable(_, _)
MkRedactable(d, n) ==
    CASE d[1] = "l" -> <<"l", [i \in 1..Len(d[2]) |-> MkRedactable(d[2][i], n \o ToString(i))]>>
      [] d[1] = "o" -> <<"o", [i \in 1..Len(d[2]) |-> <<d[2][i][1], <<"l", << <<"s", n \o ToString(i)>>, MkRedactable(d[2][i][2], n \o ToString(i))>> >> >>]>>
      [] OTHER -> d

\* Shedding: redacted fields go, the others get their values back. Only defined for redactable documents.
RECURSIVE Shed(_), ShedFields(_)
ShedFields(fs) == IF fs = <<>> THEN <<>>
                  ELSE LET x == Head(fs)
                       IN (IF x[2][1] = "r" THEN <<>> ELSE << <<x[1], Shed(x[2][2][2])>> >>) \o ShedFields(Tail(fs))
Shed(d) == CASE d[1] = "l" -> <<"l", [i \in 1..Len(d[2]) |-> Shed(d[2][i])]>>
             [] d[1] = "o" -> <<"o", ShedFields(d[2])>>
             [] OTHER -> d
RECURSIVE Sheddable(_)
Sheddable(d) == CASE d[1] = "l" -> \A i \in 1..Len(d[2]) : Sheddable(d[2][i])
                  [] d[1] = "o" -> \A i \in 1..Len(d[2]) : LET x == d[2][i][2]
                                      IN x[1] = "r" \/ (x[1] = "l" /\ Len(x[2]) = 2 /\ Sheddable(x[2][2]))
                  [] OTHER -> TRUE
RECURSIVE Without(_, _)
Without(fs, names) == IF fs = <<>> THEN <<>>
                      ELSE (IF Head(fs)[1] \in names THEN <<>> ELSE <<Head(fs)>>) \o Without(Tail(fs), names)
=============================================================================
