-------------------------------- MODULE LinJudge --------------------------------
(* Deciding whether the history of an object is explained by one order of its    *)
(* operations that respects real time, when the final order of its writes is     *)
(* known: the object went through states 0..N, write p leading to state p. Every *)
(* operation is given the earliest state that can explain it when it returns;    *)
(* MCLinear shows that this accepts exactly the linearizable histories.          *)
EXTENDS Integers, FiniteSets, TLC

JStart == [lo |-> 0,          \* no operation called from now on can be explained by an earlier state
           called |-> {},     \* writes that have been called
           at |-> [x \in {} |-> 0]]   \* operation -> lo at its call
JHi(j) == CHOOSE n \in 0..Cardinality(j.called) : (\A i \in 1..n : i \in j.called) /\ (n + 1) \notin j.called
\* pos: position of the write, 0 for a read
JCall(j, id, pos) == [j EXCEPT !.called = IF pos = 0 THEN @ ELSE @ \cup {pos}, !.at = (id :> j.lo) @@ @]

JRange(j, id) == j.at[id]..JHi(j)
\* States that explain an operation. A read is explained by those in which its answer is right,
\* a write by the one it led to. (An addition of what is there already is a read in this sense.)
JWrite(j, id, p) == IF j.at[id] < p /\ p <= JHi(j) THEN {p} ELSE {}
JAdd(j, id, p) == IF p > JHi(j) THEN {} ELSE IF j.at[id] < p THEN {p} ELSE {j.at[id]}
JMin(S) == CHOOSE n \in S : \A m \in S : n <= m
\* (operations that only promise to take effect some time leave lo as it is)
JRet(j, id, cand) == [j EXCEPT !.lo = IF cand # {} /\ JMin(cand) > @ THEN JMin(cand) ELSE @]
=============================================================================
