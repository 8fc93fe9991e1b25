------------------------------- MODULE GenBatch -------------------------------
(* Schedules for the batching mutator: which mutation is queued when, and when   *)
(* the consumer is let through to the store ("s": at the start of a batch and    *)
(* before it is stored). Whatever else the consumer can do it does at once.      *)
EXTENDS BatchMutator, Json
CONSTANTS MaxLen
VARIABLES hist, done
Eager == Take \/ More \/ Enough
Gate == Begin \/ Commit
GInit == Init /\ hist = <<>> /\ done = FALSE
GNext == /\ UNCHANGED <<conf, down>>
         /\ IF pc = "idle" /\ seed = None /\ queue # <<>> THEN Take /\ UNCHANGED <<hist, done>>
            ELSE IF pc = "batch" /\ Len(batch) < bs /\ queue # <<>> THEN More /\ UNCHANGED <<hist, done>>
            ELSE IF pc = "batch" THEN Enough /\ UNCHANGED <<hist, done>>
            ELSE IF Len(hist) = MaxLen THEN ~done /\ done' = TRUE /\ UNCHANGED <<accepted, queue, pc, seed, cur, base, batch, store, n, hist>>
                                            /\ PrintT("SCHED " \o ToJson([bs |-> bs, bu |-> bu, ops |-> hist]))
            ELSE \/ \E o \in Objs : Queue(o) /\ (n = 0 => o = "a") /\ hist' = Append(hist, o) /\ UNCHANGED done
                 \/ Gate /\ hist' = Append(hist, "s") /\ UNCHANGED done
GSpec == GInit /\ [][GNext]_<<vars, hist, done>>
=============================================================================
