------------------------------- MODULE GenJson -------------------------------
(* The small documents of JsonDocs, as inputs for the real code.                *)
EXTENDS JsonDocs, Json
VARIABLE d
Init == d = <<"start">>
Next == d = <<"start">> /\ \E x \in All : d' = x /\ PrintT("SCHED " \o ToJson(x))
Spec == Init /\ [][Next]_d
=============================================================================
