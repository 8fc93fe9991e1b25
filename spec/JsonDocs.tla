------------------------------- MODULE JsonDocs -------------------------------
(* Small JSON documents, enumerated: for model checking (MCJsonLeaf) and as     *)
(* inputs for the real code.                                                    *)
EXTENDS JsonLeaf, FiniteSets
Leaf == {<<"s", "78">>, <<"s", "">>, <<"f", FALSE, 1, 0>>, <<"f", TRUE, 3, 1>>, <<"f", FALSE, 0, 0>>, <<"t">>, <<"F">>, <<"z">>}
Lists == {<<"l", <<>>>>} \cup {<<"l", <<x>>>> : x \in Leaf} \cup {<<"l", <<x, y>>>> : x, y \in Leaf}
Names == <<"61", "62", "6262">>
\* objects with values from V (present fields in order of name)
Objs(V) == {<<"o", <<>>>>}
           \cup UNION {{<<"o", << <<Names[i], x>> >> >> : x \in V} : i \in 1..3}
           \cup UNION {{<<"o", << <<Names[i], x>>, <<Names[j], y>> >> >> : x, y \in V} : i, j \in {1, 2, 3}} \* filtered below
Ordered(d) == \A i \in 1..(Len(d[2]) - 1) : \E a, b \in 1..3 : Names[a] = d[2][i][1] /\ Names[b] = d[2][i + 1][1] /\ a < b
Flat == {d \in Objs(Leaf) : Ordered(d)}
Inner == {<<"o", <<>>>>, <<"o", << <<"61", <<"s", "78">>>> >> >>, <<"o", << <<"61", <<"z">>>>, <<"62", <<"t">>>> >> >>,
          <<"l", <<>>>>, <<"l", << <<"o", << <<"62", <<"f", FALSE, 1, 0>>>> >> >> >> >>, <<"l", << <<"s", "78">>, <<"l", << <<"t">> >> >> >> >>, <<"s", "78">>, <<"F">>}
Nested == {d \in Objs(Inner) : Ordered(d)}
All == Leaf \cup Lists \cup Flat \cup Nested
=============================================================================
