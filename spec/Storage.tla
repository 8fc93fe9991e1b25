-------------------------------- MODULE Storage --------------------------------
(* What a storage backend promises. A namespace is a function from keys to       *)
(* values that changes by updates, one at a time; the versions it has had are    *)
(* kept in vs[ns]. A transaction is opened, enters (its function runs), reads    *)
(* and writes, and leaves; a reader works on one version, which is one that was  *)
(* current at some time between its opening and its first read.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == "absent"
Val(c, k) == IF k \in DOMAIN c THEN c[k] ELSE Absent
\* contents after writes (a function from keys to values or Absent)
Written(c, w) == [k \in {x \in DOMAIN c \cup DOMAIN w : Val(w @@ c, x) # Absent} |-> (w @@ c)[k]]
NoKeys == [k \in {} |-> Absent]

CONSTANTS Spaces, Keys, Vals, Txs, MaxUpdates, Transactional

VARIABLES vs,   \* namespace -> sequence of versions
          tx,   \* transaction -> what it is doing
          n
vars == <<vs, tx, n>>

Idle == [st |-> "idle"]
Init == vs = [s \in Spaces |-> <<NoKeys>>] /\ tx = [t \in Txs |-> Idle] /\ n = 0

Latest(s) == vs[s][Len(vs[s])]
Updating(s) == \E t \in Txs : tx[t].st = "in" /\ tx[t].upd /\ tx[t].ns = s
Enter(t, s, upd) == /\ tx[t] = Idle
                    /\ upd => ~Updating(s)
                    /\ tx' = [tx EXCEPT ![t] = [st |-> "in", ns |-> s, upd |-> upd, base |-> Len(vs[s]), w |-> NoKeys, reads |-> NoKeys]]
                    /\ UNCHANGED <<vs, n>>
In(t) == tx[t].st = "in"
See(t, k) == LET x == tx[t] IN Val(x.w @@ vs[x.ns][x.base], k)
Get(t, k) == In(t) /\ tx' = [tx EXCEPT ![t].reads = (k :> See(t, k)) @@ @] /\ UNCHANGED <<vs, n>>
Set(t, k, v) == In(t) /\ tx[t].upd /\ tx' = [tx EXCEPT ![t].w = (k :> v) @@ @, ![t].reads = [x \in (DOMAIN @) \ {k} |-> @[x]]] /\ UNCHANGED <<vs, n>>
Leave(t, ok) ==
    LET x == tx[t]
        keep == x.upd /\ (ok \/ ~Transactional)
    IN /\ In(t) /\ (keep => n < MaxUpdates)
       /\ tx' = [tx EXCEPT ![t] = Idle]
       /\ vs' = IF keep THEN [vs EXCEPT ![x.ns] = Append(@, Written(vs[x.ns][x.base], x.w))] ELSE vs
       /\ n' = IF keep THEN n + 1 ELSE n
Next == \E t \in Txs : \/ \E s \in Spaces, u \in BOOLEAN : Enter(t, s, u)
                       \/ \E k \in Keys : Get(t, k)
                       \/ \E k \in Keys, v \in Vals \cup {Absent} : Set(t, k, v)
                       \/ \E ok \in BOOLEAN : Leave(t, ok)
Spec == Init /\ [][Next]_vars

\* No update is lost: each one starts from the result of the one before
NoLostUpdate == \A t \in Txs : In(t) /\ tx[t].upd => tx[t].base = Len(vs[tx[t].ns])
\* What a transaction has read is what one version, with its own writes, says; and goes on saying
OneView == \A t \in Txs : In(t) => \A k \in DOMAIN tx[t].reads : tx[t].reads[k] = See(t, k)
\* Nothing ever disappears or changes, and a failed transaction leaves no trace
Linear == [][\A s \in Spaces : vs'[s] = vs[s] \/ (Len(vs'[s]) = Len(vs[s]) + 1 /\ SubSeq(vs'[s], 1, Len(vs[s])) = vs[s])]_vars
OneSpace == [][\A s, u \in Spaces : s # u => vs'[s] = vs[s] \/ vs'[u] = vs[u]]_vars
NoAbsent == \A s \in Spaces : \A k \in DOMAIN Latest(s) : Latest(s)[k] # Absent
=============================================================================
