-------------------------------- MODULE GenWait --------------------------------
(* Schedules of waits, from Wait: for each poll the head answered and the size of  *)
(* the log at that time (by which the search for the entry is answered).           *)
EXTENDS Wait, Sequences, TLC, Json
CONSTANT MaxPolls
VARIABLE tr
GInit == Init /\ tr = <<>>
Quiet == sres' = sres
Step == \/ (Apply \/ Grow) /\ tr' = tr
        \/ /\ Len(tr) < MaxPolls
           /\ \E h \in 0..size : Poll(h) /\ tr' = Append(tr, [h |-> h, n |-> size, in |-> pos # 0])
           /\ res' # -1 => PrintT("SCHED " \o ToJson([pos |-> pos, polls |-> tr']))
GNext == Step /\ Quiet
GSpec == GInit /\ [][GNext]_<<vars, tr>>
=============================================================================
