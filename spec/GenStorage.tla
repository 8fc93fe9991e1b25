------------------------------ MODULE GenStorage ------------------------------
(* Schedules of transactions on a store, as behaviours of Storage with the       *)
(* opening of a transaction as a step of its own (an update may have to wait).   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Slots, Keys, MaxLen
VARIABLES st, hist, done
vars == <<st, hist, done>>
Init == st = [s \in Slots |-> "idle"] /\ hist = <<>> /\ done = FALSE
Do(s, op, k, x) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, [s |-> s, op |-> op, k |-> k]) /\ st' = [st EXCEPT ![s] = x] /\ done' = FALSE
FirstIdle(s) == \A r \in Slots : r < s => st[r] # "idle"
Step(s) == \/ st[s] = "idle" /\ FirstIdle(s) /\ \E m \in {"r", "u"} : Do(s, m, 0, m)
           \/ st[s] # "idle" /\ \E k \in Keys : Do(s, "g", k, st[s])
           \/ st[s] = "u" /\ \E k \in Keys, op \in {"s", "d"} : Do(s, op, k, st[s])
           \/ st[s] # "idle" /\ \E op \in {"e", "f"} : (op = "f" => st[s] = "u") /\ Do(s, op, 0, "idle")
Useful == \E i \in 1..Len(hist) : hist[i].op = "u"
Next == \/ \E s \in Slots : Step(s)
        \/ Len(hist) = MaxLen /\ ~done /\ Useful /\ done' = TRUE /\ UNCHANGED <<st, hist>> /\ PrintT("SCHED " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
