---------------------------------- MODULE Wait ----------------------------------
(* Waiting for an update that was accepted and will be applied at some time, as  *)
(* entry number pos of a log that others extend as well. The one who waits polls: *)
(* the answer is the head of any size up to the present one (it may be out of     *)
(* date, and may go back), and the entry is looked for in the tree of a head that *)
(* is newer than all before. Another one waits for the log to have Want entries.  *)
EXTENDS Integers
CONSTANTS MaxN, Want
VARIABLES size, pos, last, res, sres
vars == <<size, pos, last, res, sres>>

Init == size \in 0..(MaxN - 1) /\ pos = 0 /\ last = -1 /\ res = -1 /\ sres = -1
Apply == /\ pos = 0 /\ size < MaxN
         /\ size' = size + 1 /\ pos' = size + 1 /\ UNCHANGED <<last, res, sres>>
Grow == /\ size < (IF pos = 0 THEN MaxN - 1 ELSE MaxN)
        /\ size' = size + 1 /\ UNCHANGED <<pos, last, res, sres>>
In(h) == pos # 0 /\ pos <= h
Poll(h) == /\ res = -1 /\ h <= size
           /\ IF h > last /\ In(h) THEN res' = h /\ last' = last
              ELSE res' = res /\ last' = IF h > last THEN h ELSE last
           /\ UNCHANGED <<size, pos, sres>>
PollSize(h) == /\ sres = -1 /\ h <= size
               /\ sres' = IF h >= Want THEN h ELSE -1
               /\ UNCHANGED <<size, pos, last, res>>
Next == Apply \/ Grow \/ \E h \in 0..size : Poll(h) \/ PollSize(h)
\* The update is applied at some time, and the heads are not out of date forever
Fair == WF_vars(Apply) /\ WF_vars(Grow) /\ SF_vars(Poll(size)) /\ SF_vars(PollSize(size))
Spec == Init /\ [][Next]_vars /\ Fair

\* A head that has the update was returned
Included == res # -1 => In(res) /\ res <= size
LongEnough == sres # -1 => sres >= Want /\ sres <= size
\* No head that has the update was passed over
NoneMissed == res = -1 => ~In(last)
Returns == <>(res # -1)
ReturnsSize == <>(sres # -1)
=============================================================================
