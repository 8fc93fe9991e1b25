------------------------------ MODULE GenKVMap ------------------------------
(* Schedules that take the map of KVMap through every transition from every     *)
(* shape of its tree (which nodes and leaves there are, and what is below them) *)
(* that MaxLen mutations over the given paths can produce. Keys are given by    *)
(* the bits of their position.                                                  *)
EXTENDS KVMap, Json
CONSTANTS MaxLen, NV

VARIABLES hist
gvars == <<kv, n, conts, data, hist>>

Op(a, k, v, p) == [a |-> a, k |-> 0, b |-> KB[k], v |-> v, p |-> p]
ValNo(x) == IF x = "" THEN 0 ELSE CHOOSE i \in 1..NV : ToString(i) = x

\* the tree below a node: a leaf with its value, a pair, or nothing
RECURSIVE Shape(_, _)
Shape(number, path) ==
    LET nd == Lookup(kv, number, path)
    IN IF nd.leaf # "" THEN <<"leaf", nd.path, nd.leaf>>
       ELSE <<IF nd.ln = 0 THEN <<>> ELSE Shape(nd.ln, Append(path, 0)), IF nd.rn = 0 THEN <<>> ELSE Shape(nd.rn, Append(path, 1))>>
GView == Shape(n, <<>>)

Do(k, li, c, op) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, op) /\ Apply(k, li, c)
                    /\ PrintT("SCHED " \o ToJson(hist'))
GInit == Init /\ hist = <<>>
GNext == \/ \E k \in Keys, v \in 1..NV : Do(k, ToString(v), Put(C(n), k, ToString(v)), Op("set", k, v, -2))
         \/ \E k \in Keys : Do(k, "", Put(C(n), k, ""), Op("delete", k, 0, -2))
         \/ \E k \in Keys, v \in 1..NV : Do(k, ToString(v), Put(C(n), k, ToString(v)), Op("update", k, v, ValNo(ValOf(C(n), k))))
         \/ \E k \in Keys : Do(k, ValOf(C(n), k), C(n), Op("update", k, 1, -1))
GSpec == GInit /\ [][GNext]_gvars

\* paths that part at every depth
MCKB5 == "a" :> <<0,0,0>> @@ "b" :> <<0,0,1>> @@ "c" :> <<0,1,1>> @@ "d" :> <<1,1,0>>
=============================================================================
