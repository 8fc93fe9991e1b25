--------------------------------- MODULE KVLog ---------------------------------
(* How a log is kept in a key-value store, and how an addition is carried out   *)
(* there: access by access, inside one transaction, any access of which may     *)
(* fail and at any point of which the process may stop. It implements the log   *)
(* of VDS: what can be read back, with the proofs computed from the stored      *)
(* nodes, is at all times what the list of entries implies, an addition takes   *)
(* effect completely or not at all, and one that was reported to have failed    *)
(* takes effect once when it is tried again.                                    *)
EXTENDS MerkleLog, TLC

CONSTANTS Items,        \* what can be added
          MaxSize, MaxFaults

VARIABLES disk,   \* committed contents, from keys to values
          buf,    \* writes of the transaction
          todo,   \* accesses still to be made
          arg,    \* entry being added, "" when idle
          want,   \* what the log has to contain (entries that took effect, in order)
          told,   \* outcome of the last attempt: "ok", "error", "nothing"
          faults
vars == <<disk, buf, todo, arg, want, told, faults>>

None == "none"
Empty == (<<"size">> :> 0)
Has(s, k) == k \in DOMAIN s
View == buf @@ disk
Look(s, k) == IF Has(s, k) THEN s[k] ELSE None

Init == disk = Empty /\ buf = [k \in {} |-> 0] /\ todo = <<>> /\ arg = "" /\ want = <<>> /\ told = "ok" /\ faults = 0

------------------------------------------------------------------------------
(* The accesses of an addition, given what the transaction sees at its start   *)

\* The complete subtrees that a log of n entries consists of, left to right
RECURSIVE Peaks(_, _)
Peaks(a, n) == IF n = 0 THEN <<>>
               ELSE LET k == IF IsPow2(n) THEN n ELSE K(n) IN << <<a, a + k>> >> \o Peaks(a + k, n - k)
NodeKey(r) == IF r[2] - r[1] = 1 THEN <<"leaf", r[1]>> ELSE <<"node", r[1], r[2]>>

\* Nodes completed by the entry at index i with hash h, given the hashes of the peaks before it
RECURSIVE Complete(_, _, _, _)
Complete(i, w, stack, acc) ==
    \* w: width of the subtree on top of the stack
    IF (i \div w) % 2 = 0 THEN <<stack, acc>>
    ELSE LET n == Len(stack)
             p == NodeH(stack[n - 1], stack[n])
         IN Complete(i, 2 * w, Append(SubSeq(stack, 1, n - 2), p), Append(acc, << <<"node", i + 1 - 2 * w, i + 1>>, p>>))
RECURSIVE Collapse(_)
Collapse(stack) == IF Len(stack) = 1 THEN stack[1]
                   ELSE LET n == Len(stack) IN Collapse(Append(SubSeq(stack, 1, n - 2), NodeH(stack[n - 1], stack[n])))

Get(k) == <<"get", k>>
Set(k, v) == <<"set", k, v>>
Accesses(s, x) ==
    LET i == s[<<"size">>]
        h == LeafH(x)
        look == <<Get(<<"size">>), Get(<<"index", h>>)>>
        peaks == Peaks(0, i)
        stack == [j \in 1..Len(peaks) |-> s[NodeKey(peaks[j])]]
        c == Complete(i, 1, Append(stack, h), <<>>)
    IN IF Has(s, <<"index", h>>) /\ s[<<"index", h>>] < i THEN look
       ELSE look \o <<Set(<<"data", h>>, x), Set(<<"leaf", i>>, h), Set(<<"index", h>>, i)>>
                 \o [j \in 1..Len(peaks) |-> Get(NodeKey(peaks[j]))]
                 \o [j \in 1..Len(c[2]) |-> Set(c[2][j][1], c[2][j][2])]
                 \o <<Set(<<"root", i + 1>>, Collapse(c[1])), Set(<<"size">>, i + 1)>>

------------------------------------------------------------------------------
Idle == arg = ""
Begin(x) == /\ Idle /\ disk[<<"size">>] < MaxSize
            /\ arg' = x /\ todo' = Accesses(disk, x) \o << <<"commit">> >> /\ buf' = [k \in {} |-> 0]
            /\ UNCHANGED <<disk, want, told, faults>>
Step == /\ ~Idle /\ todo # <<>> /\ Head(todo)[1] # "commit"
        /\ LET a == Head(todo)
           IN buf' = IF a[1] = "set" THEN (a[2] :> a[3]) @@ buf ELSE buf
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<disk, arg, want, told, faults>>
Takes(x) == IF \E i \in 1..Len(want) : want[i] = x THEN want ELSE Append(want, x)
Commit == /\ ~Idle /\ todo # <<>> /\ Head(todo)[1] = "commit"
          /\ disk' = View /\ buf' = [k \in {} |-> 0] /\ todo' = <<>>
          /\ want' = Takes(arg)
          /\ UNCHANGED <<arg, told, faults>>
Return == /\ ~Idle /\ todo = <<>> /\ arg' = "" /\ told' = "ok" /\ UNCHANGED <<disk, buf, todo, want, faults>>
\* An access (or the commit) fails: the transaction is given up and the caller told
Fail == /\ ~Idle /\ todo # <<>> /\ faults < MaxFaults
        /\ buf' = [k \in {} |-> 0] /\ todo' = <<>> /\ arg' = "" /\ told' = "error" /\ faults' = faults + 1
        /\ UNCHANGED <<disk, want>>
\* The process stops: only what was committed is left, and nobody is told anything
Stop == /\ ~Idle /\ faults < MaxFaults
        /\ buf' = [k \in {} |-> 0] /\ todo' = <<>> /\ arg' = "" /\ told' = "nothing" /\ faults' = faults + 1
        /\ UNCHANGED <<disk, want>>
Next == \/ \E x \in Items : Begin(x)
        \/ Step \/ Commit \/ Return \/ Fail \/ Stop
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the store says, at any time                                            *)
Sz == disk[<<"size">>]
Hashes == [i \in 1..Sz |-> Look(disk, <<"leaf", i - 1>>)]

\* Proofs from stored nodes: complete subtrees are looked up, the others put together
Stored(r) == Look(disk, NodeKey(r))
RECURSIVE PutTogether(_)
PutTogether(rs) == IF Len(rs) = 1 THEN Stored(rs[1]) ELSE NodeH(Stored(rs[1]), PutTogether(Tail(rs)))
Part(r) == IF Stored(r) # None THEN Stored(r) ELSE PutTogether(Peaks(r[1], r[2] - r[1]))
PathOf(i, n) == LET rs == PathRanges(i, 0, n) IN [j \in 1..Len(rs) |-> Part(rs[j])]
ProofOf(m, n) == LET rs == ProofRanges(m, 0, n, TRUE) IN [j \in 1..Len(rs) |-> Part(rs[j])]

\* All of the addition or nothing
Content == /\ Sz = Len(want)
           /\ \A i \in 1..Sz : /\ Hashes[i] = LeafH(want[i])
                               /\ Look(disk, <<"data", Hashes[i]>>) = want[i]
                               /\ Look(disk, <<"index", Hashes[i]>>) = i - 1
\* Heads and proofs as the list of entries implies, for every size
Answers == LET h == [i \in 1..Len(want) |-> LeafH(want[i])]
           IN \A n \in 1..Len(want) :
                 /\ Look(disk, <<"root", n>>) = MTH(Prefix(h, n))
                 /\ \A i \in 0..(n - 1) : PathOf(i, n) = APATH(i, Prefix(h, n))
                 /\ \A m \in 1..(n - 1) : ProofOf(m, n) = CPROOF(m, Prefix(h, n))
\* Entries take effect once, and what has been stored stays
Once == \A i, j \in 1..Len(want) : want[i] = want[j] => i = j
Grows == [][Len(want') >= Len(want) /\ SubSeq(want', 1, Len(want)) = want]_vars
\* Nothing of what an earlier size refers to is ever written again
Stable == [][\A k \in DOMAIN disk \ {<<"size">>} : disk'[k] = disk[k]]_vars
\* After success the entry is there; after a failure it is not, unless it was before
Told == [][Idle' /\ ~Idle => /\ told' = "ok" => \E i \in 1..Len(want') : want'[i] = arg
                             /\ told' = "error" => want' = want]_vars
=============================================================================
