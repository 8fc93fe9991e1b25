--------------------------------- MODULE GenLin ---------------------------------
(* Schedules of concurrent callers of one object: each is called, then takes      *)
(* steps (each up to the next point where the driver can hold it), at last is     *)
(* left to return. A caller reads or writes.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, Steps, MaxReads
Procs == 1..NP
VARIABLES kind, at, hist, done
vars == <<kind, at, hist, done>>
\* at[p]: 0 not called, 1 called, 1 + n after n steps, Steps + 2 returned
Init == /\ kind \in [Procs -> {"r", "w"}]
        /\ Cardinality({p \in Procs : kind[p] = "r"}) <= MaxReads
        /\ at = [p \in Procs |-> 0] /\ hist = <<>> /\ done = FALSE
\* callers of one kind are alike
MayCall(p) == \A q \in Procs : (q < p /\ kind[q] = kind[p]) => at[q] > 0
Step(p) == /\ at[p] < Steps + 2
           /\ at[p] = 0 => MayCall(p)
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ hist' = Append(hist, p)
           /\ UNCHANGED <<kind, done>>
Sorted == \A p, q \in Procs : p < q => ~(kind[p] = "w" /\ kind[q] = "r")
Finish == /\ \A p \in Procs : at[p] = Steps + 2
          /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, at, hist>>
          /\ PrintT("SCHED " \o ToJson([k |-> kind, s |-> hist, n |-> Steps]))
Next == Finish \/ \E p \in Procs : Step(p)
Spec == Init /\ Sorted /\ [][Next]_vars
=============================================================================
