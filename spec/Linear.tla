--------------------------------- MODULE Linear ---------------------------------
(* Concurrent callers of one object. A request runs in one transaction of the     *)
(* storage: a write reads the size, stores its item and a new root under the next *)
(* number and then the new size; a read of the latest state reads the size and    *)
(* then the root of that size; a read of a fixed size reads both too.             *)
(* mode "tx": updates exclude each other and readers work on a snapshot, as every *)
(* backend promises (Storage). The other modes leave something out: "mixed" makes *)
(* every access of a reader a transaction of its own, "racing" does not make      *)
(* updates exclude each other. Histories are judged as traces of the real code    *)
(* are (LinJudge), and by definition.                                             *)
EXTENDS LinJudge, Sequences
CONSTANTS Procs, Modes, MaxWrites

VARIABLES mode, disk, pr, log, hist
vars == <<mode, disk, pr, log, hist>>
\* disk: committed [size, root], root a function from sizes to the writes it stands for; log: order of commits

Ops == {"write", "latest", "fixed", "old"}
Nil == <<"nil">>
Root(d, n) == IF n = 0 THEN <<>> ELSE IF n \in DOMAIN d.root THEN d.root[n] ELSE Nil

Init == /\ mode \in Modes
        /\ disk = [size |-> 0, root |-> [x \in {} |-> <<>>]]
        /\ pr = [p \in Procs |-> [st |-> "new"]]
        /\ log = <<>> /\ hist = <<>>

Earlier(p) == {q \in Procs : q < p}
Call(p, op) == /\ pr[p].st = "new"
               /\ \A q \in Earlier(p) : pr[q].st # "new"     \* (callers are alike)
               /\ op = "write" => Cardinality({q \in Procs : pr[q].st # "new" /\ pr[q].op = "write"}) < MaxWrites
               /\ pr' = [pr EXCEPT ![p] = [st |-> "called", op |-> op, size |-> 0, root |-> Nil, snap |-> disk, got |-> Nil]]
               /\ hist' = Append(hist, <<"call", p>>)
               /\ UNCHANGED <<mode, disk, log>>
Updating == \E p \in Procs : pr[p].st \in {"in", "read"} /\ pr[p].op = "write"
Enter(p) == /\ pr[p].st = "called"
            /\ (pr[p].op = "write" /\ mode # "racing") => ~Updating
            /\ pr' = [pr EXCEPT ![p].st = "in", ![p].snap = disk]
            /\ UNCHANGED <<mode, disk, log, hist>>
See(p) == IF mode = "mixed" /\ pr[p].op # "write" THEN disk ELSE pr[p].snap
ReadSize(p) == /\ pr[p].st = "in"
               /\ pr' = [pr EXCEPT ![p].st = "read", ![p].size = See(p).size]
               /\ UNCHANGED <<mode, disk, log, hist>>
Answer(p) == LET n == pr[p].size
             IN CASE pr[p].op = "latest" -> <<n, Root(See(p), n)>>
                  [] pr[p].op = "fixed" -> IF n < 1 THEN <<"bad">> ELSE <<1, Root(See(p), 1)>>
                  [] pr[p].op = "old" -> <<n, See(p).size>>     \* the size, asked for twice
Finish(p) == /\ pr[p].st = "read"
             /\ IF pr[p].op = "write"
                THEN LET n == pr[p].size + 1
                     IN /\ disk' = [size |-> n, root |-> (n :> Append(Root(pr[p].snap, n - 1), p)) @@ disk.root]
                        /\ log' = Append(log, p)
                        /\ pr' = [pr EXCEPT ![p].st = "done", ![p].got = <<"ok">>]
                ELSE /\ pr' = [pr EXCEPT ![p].st = "done", ![p].got = Answer(p)]
                     /\ UNCHANGED <<disk, log>>
             /\ UNCHANGED <<mode, hist>>
Return(p) == /\ pr[p].st = "done"
             /\ pr' = [pr EXCEPT ![p].st = "over"]
             /\ hist' = Append(hist, <<"ret", p>>)
             /\ UNCHANGED <<mode, disk, log>>
Next == \E p \in Procs : \/ \E op \in Ops : Call(p, op)
                         \/ Enter(p) \/ ReadSize(p) \/ Finish(p) \/ Return(p)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Over == \A p \in Procs : pr[p].st = "over"
\* What the object contains in the end, and after each write
Final == Root(disk, disk.size)
State(n) == SubSeq(Final, 1, n)
N == Len(Final)
Right(p, n) == LET a == pr[p].got
               IN CASE pr[p].op = "latest" -> a = <<n, State(n)>>
                    [] pr[p].op = "fixed" -> a = (IF n < 1 THEN <<"bad">> ELSE <<1, State(1)>>)
                    [] pr[p].op = "old" -> a = <<n, n>>
PosOf(p) == IF pr[p].op # "write" THEN 0
            ELSE IF \E i \in 1..N : Final[i] = p THEN CHOOSE i \in 1..N : Final[i] = p ELSE 99

\* As traces are judged
RECURSIVE Judge(_, _)
Judge(h, j) ==
    IF h = <<>> THEN \A i \in 1..N : i \in j.called
    ELSE LET p == Head(h)[2]
         IN IF Head(h)[1] = "call" THEN Judge(Tail(h), JCall(j, p, PosOf(p)))
            ELSE LET cand == IF pr[p].op = "write" THEN JWrite(j, p, PosOf(p)) ELSE {n \in JRange(j, p) : Right(p, n)}
                 IN cand # {} /\ Judge(Tail(h), JRet(j, p, cand))
Accept == Judge(hist, JStart)

\* By definition: some order of all operations that respects real time explains every answer and the final contents
IndexIn(h, k, p) == CHOOSE i \in 1..Len(h) : h[i] = <<k, p>>
Before(p, q) == IndexIn(hist, "ret", p) < IndexIn(hist, "call", q)
Perms == {f \in [1..Cardinality(Procs) -> Procs] : \A i, j \in 1..Cardinality(Procs) : i # j => f[i] # f[j]}
Writes(f, i) == SelectSeq(SubSeq(f, 1, i), LAMBDA p : pr[p].op = "write")
Explains(f) == /\ \A i, j \in 1..Cardinality(Procs) : i < j => ~Before(f[j], f[i])
               /\ Writes(f, Cardinality(Procs)) = Final
               /\ \A i \in 1..Cardinality(Procs) : pr[f[i]].op # "write" => Right(f[i], Len(Writes(f, i)))
Linearizable == \E f \in Perms : Explains(f)

Linearized == Over /\ mode = "tx" => Accept
JudgeRight == Over => (Accept <=> Linearizable)
\* (to see that the judge does refuse histories: both have to be violated)
NeverRefusesMixed == ~(Over /\ mode = "mixed" /\ ~Accept)
NeverRefusesRacing == ~(Over /\ mode = "racing" /\ ~Accept)
=============================================================================
