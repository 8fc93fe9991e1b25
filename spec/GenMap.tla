------------------------------- MODULE GenMap -------------------------------
(* Schedules of map mutations, as behaviours of a small abstraction of the map  *)
(* of VDS (keys and values by number, 0 the empty value). Explored exhaustively *)
(* every history of length MaxLen is produced (up to renaming of keys and       *)
(* values); in simulation mode random ones, with the choice among mutations     *)
(* guided by the state: updates that match and ones that just do not, deletions *)
(* of present and absent keys, values that come back.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NK, NV, MaxLen

VARIABLES cur, hist, done
vars == <<cur, hist, done>>

Keys == 1..NK
Init == cur = [k \in Keys |-> 0] /\ hist = <<>> /\ done = FALSE

Op(a, k, v, p) == [a |-> a, k |-> k, v |-> v, p |-> p]
MaxK == LET S == {hist[i].k : i \in 1..Len(hist)} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MaxV == LET S == {hist[i].v : i \in 1..Len(hist)} \cup {hist[i].p : i \in 1..Len(hist)} \cup {0}
        IN CHOOSE x \in S : \A y \in S : y <= x
UseK == {k \in Keys : k <= MaxK + 1}
UseV == {v \in 0..NV : v <= MaxV + 1}
\* foreign hash, no hash, current value, some other value
Prevs(k) == {-1, -2} \cup {v \in UseV : v <= MaxV}

Do(op) == /\ Len(hist) < MaxLen /\ done' = FALSE
          /\ hist' = Append(hist, op)
          /\ cur' = [cur EXCEPT ![op.k] =
                CASE op.a = "set" -> op.v
                  [] op.a = "delete" -> 0
                  [] op.a = "update" -> IF op.p = @ THEN op.v ELSE @]

Set == \E k \in UseK, v \in UseV : Do(Op("set", k, v, -2))
Delete == \E k \in UseK : Do(Op("delete", k, 0, -2))
UpdateHit == \E k \in UseK, v \in UseV : Do(Op("update", k, v, cur[k]))
UpdateMiss == \E k \in UseK, v \in UseV : \E p \in Prevs(k) \ {cur[k]} : Do(Op("update", k, v, p))
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<cur, hist>> /\ PrintT("SCHED " \o ToJson(hist))
Next == Finish \/ Set \/ Delete \/ UpdateHit \/ UpdateMiss
Spec == Init /\ [][Next]_vars
=============================================================================
