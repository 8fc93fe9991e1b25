------------------------------ MODULE MCMerkle ------------------------------
(* Exhaustive check of MerkleLog for small trees, one state per question.      *)
(*  - the two definitions agree, every honest proof has the right shape and    *)
(*    is accepted by the verification procedures (completeness), MaxN leaves;  *)
(*  - soundness: against every path over the universe of all hashes occurring  *)
(*    in the trees (plus a foreign one), the procedures accept nothing but the *)
(*    truth, SoundN leaves.                                                    *)
EXTENDS MerkleLog, TLC
CONSTANTS MaxN, SoundN, MaxPath

Leaf(i) == LeafH(ToString(i))
Lst(n) == [i \in 1..n |-> Leaf(i)]
\* A fork of the list: differs in its last entry
Fork(n) == [i \in 1..n |-> IF i = n THEN Leaf(100 + i) ELSE Leaf(i)]

VARIABLE q     \* the question being asked

\* Hashes of all subtrees over arbitrary split of a list
RECURSIVE Terms(_)
Terms(h) == IF Len(h) = 1 THEN {h[1]}
            ELSE LET k == K(Len(h)) IN {MTH(h)} \cup Terms(SubSeq(h, 1, k)) \cup Terms(SubSeq(h, k + 1, Len(h)))
Universe == UNION {Terms(Lst(n)) : n \in 1..SoundN} \cup UNION {Terms(Fork(n)) : n \in 1..SoundN} \cup {"foreign"}

RECURSIVE Paths(_)
Paths(k) == IF k = 0 THEN {<<>>} ELSE LET P == Paths(k - 1) IN P \cup {Append(p, u) : p \in {x \in P : Len(x) = k - 1}, u \in Universe}
AllPaths == Paths(MaxPath)

Init == q = <<"start">>
Next == \/ q = <<"start">> /\ \E g \in 0..MaxN, k \in 1..SoundN : q' = <<"group", g, k>>
        \/ /\ q[1] = "group"
           /\ LET g == q[2] IN
              \/ \E n \in 1..MaxN : g < n /\ n % SoundN = q[3] - 1 /\ q' = <<"complete", n, g>>
              \/ \E leaf \in Universe : g <= SoundN /\ q' = <<"incl", q[3], g, leaf>>
              \/ \E n \in 0..SoundN, f \in BOOLEAN : g <= SoundN /\ n = q[3] /\ q' = <<"cons", g, n, f>>

CompleteOK(n, i) ==
    LET h == Lst(n)
        lv == Levels(h)
    IN /\ RootL(lv, n) = MTH(h)
       /\ \A j \in 1..n : RootL(lv, j) = MTH(Prefix(h, j))
       /\ PathL(lv, i, n) = APATH(i, h)
       /\ VerifyIncl(h[i + 1], i, n, APATH(i, h), MTH(h))
       /\ VerifyInclLib(h[i + 1], i, n, APATH(i, h), MTH(h))
       /\ i >= 1 => /\ ProofL(lv, i, n) = CPROOF(i, h)
                    /\ VerifyCons(i, n, CPROOF(i, h), MTH(Prefix(h, i)), MTH(h))

InclSound(n, i, leaf) ==
    LET h == Lst(n)
        root == MTH(h)
    IN \A p \in AllPaths :
          LET truth == i < n /\ leaf = h[i + 1] /\ p = APATH(i, h)
          IN /\ VerifyIncl(leaf, i, n, p, root) <=> truth
             /\ VerifyInclLib(leaf, i, n, p, root) <=> truth

\* first head: of Lst(m), or of a list that forked at m
ConsSound(m, n, f) ==
    m >= 1 /\ n >= 1 =>
    LET h == Lst(n)
        first == IF f THEN Fork(m) ELSE Lst(m)
        r1 == MTH(first)
        r2 == MTH(h)
    IN \A p \in AllPaths : VerifyCons(m, n, p, r1, r2) <=> (m < n /\ ~f /\ p = CPROOF(m, h))

Inv == CASE q[1] \in {"start", "group"} -> TRUE
         [] q[1] = "complete" -> CompleteOK(q[2], q[3])
         [] q[1] = "incl" -> InclSound(q[2], q[3], q[4])
         [] q[1] = "cons" -> ConsSound(q[2], q[3], q[4])
=============================================================================
