-------------------------------- MODULE KVMap --------------------------------
(* The map as the service keeps it: tree nodes in a key-value store, one new    *)
(* path from the root per mutation, the nodes of earlier sizes left in place.   *)
(* A subtree with a single leaf is that leaf, wherever it hangs; a deleted key  *)
(* leaves a leaf with the hash of the empty string behind until its place is    *)
(* taken. The properties: at every size the root, the value and the proof read  *)
(* off the nodes are those of SparseMap for the contents at that size, and      *)
(* nodes are only ever added (C07, C08, C09, C12).                              *)
EXTENDS SparseMap, TLC

CONSTANTS KB, Keys, Vals, MaxMut

VARIABLES kv,    \* <<size, path>> -> node
          n,     \* mutations so far
          conts, \* contents after each
          data   \* leaf hash -> leaf input, as first stored
vars == <<kv, n, conts, data>>

Node(ln, lh, rn, rh) == [ln |-> ln, lh |-> lh, rn |-> rn, rh |-> rh, leaf |-> "", path |-> <<>>]
Leaf(h, p) == [ln |-> 0, lh |-> "", rn |-> 0, rh |-> "", leaf |-> h, path |-> p]
Nothing == Node(0, "", 0, "")

Lookup(s, number, path) == IF number = 0 /\ path = <<>> THEN Nothing ELSE s[<<number, path>>]

CalcHash(nd, d) == IF nd.leaf # "" THEN FoldUp(nd.path, nd.leaf, Depth, d)
                   ELSE NodeH(IF nd.ln = 0 THEN Def(d + 1) ELSE nd.lh, IF nd.rn = 0 THEN Def(d + 1) ELSE nd.rh)
HashAt(nd, d) == IF nd = Nothing THEN Def(d) ELSE CalcHash(nd, d)

Up(p, d) == SubSeq(p, 1, d)

RECURSIVE Descend(_, _, _, _)
\* where the search for a path ends, and the nodes passed on the way
Descend(s, p, head, anc) ==
    LET d == Len(anc)
        next == IF d = Depth THEN 0 ELSE IF p[d + 1] = 1 THEN head.rn ELSE head.ln
    IN IF next = 0 THEN [head |-> head, anc |-> anc]
       ELSE Descend(s, p, Lookup(s, next, Up(p, d + 1)), Append(anc, head))

IsEmpty(nd) == (nd.leaf = "" \/ nd.leaf = EmptyLeaf) /\ nd.ln = 0 /\ nd.rn = 0

RECURSIVE Ancestors(_, _, _, _, _)
\* writes new copies of anc, from the lowest up, above a node whose hash is cur
Ancestors(s, p, anc, cur, m) ==
    IF anc = <<>> THEN [s |-> s, root |-> cur]
    ELSE LET i == Len(anc) - 1
             a == anc[i + 1]
             nd == IF p[i + 1] = 1 THEN Node(a.ln, a.lh, m, cur) ELSE Node(m, cur, a.rn, a.rh)
         IN Ancestors((<<m, Up(p, i)>> :> nd) @@ s, p, SubSeq(anc, 1, i), CalcHash(nd, i), m)

PrevOf(s, p, number) == LET f == Descend(s, p, Lookup(s, number, <<>>), <<>>)
                        IN IF f.head.leaf # "" /\ f.head.path = p THEN f.head.leaf ELSE EmptyLeaf

\* the store after the leaf at p gets the hash h by mutation number m (from 1), and the new root
SetLeaf(s, p, h, m) ==
    LET root == Lookup(s, m - 1, <<>>)
        f == Descend(s, p, root, <<>>)
        head == f.head
        me == Leaf(h, p)
        match == head.leaf # "" /\ head.path = p
    IN IF (IF match THEN head.leaf ELSE EmptyLeaf) = h
       THEN [s |-> (<<m, <<>>>> :> root) @@ s, root |-> HashAt(root, 0)]
       ELSE IF match \/ IsEmpty(head)
       THEN LET d == Len(f.anc)
            IN Ancestors((<<m, Up(p, d)>> :> me) @@ s, p, f.anc, CalcHash(me, d), m)
       ELSE IF head.leaf = ""
       THEN LET anc == Append(f.anc, head)
            IN Ancestors((<<m, Up(p, Len(anc))>> :> me) @@ s, p, anc, CalcHash(me, Len(anc)), m)
       ELSE LET c == CommonLen(p, head.path)
                stubs == f.anc \o [i \in 1..(c - Len(f.anc)) |-> Nothing]
                theirs == CalcHash(head, c + 1)
                par == IF p[c + 1] = 1 THEN Node(m, theirs, 0, "") ELSE Node(0, "", m, theirs)
                s1 == (<<m, Append(Up(p, c), 1 - p[c + 1])>> :> head) @@ s
                anc == Append(stubs, par)
            IN Ancestors((<<m, Up(p, c + 1)>> :> me) @@ s1, p, anc, CalcHash(me, c + 1), m)

\* what is read: the hash of the value and the path, "" for a default
ReadAt(s, p, number) ==
    LET f == Descend(s, p, Lookup(s, number, <<>>), <<>>)
        A == Len(f.anc)
        sib(nd, i) == IF p[i] = 1 THEN (IF nd.ln = 0 THEN "" ELSE nd.lh) ELSE (IF nd.rn = 0 THEN "" ELSE nd.rh)
        other == f.head.leaf # "" /\ f.head.path # p
        c == IF other THEN CommonLen(p, f.head.path) ELSE A
        at(i) == IF i <= A THEN sib(f.anc[i], i)
                 ELSE IF f.head.leaf = "" THEN (IF i = A + 1 THEN sib(f.head, i) ELSE "")
                 ELSE IF other /\ i = c + 1 THEN CalcHash(f.head, c + 1) ELSE ""
    IN [lh |-> IF f.head.leaf # "" /\ ~other THEN f.head.leaf ELSE EmptyLeaf, path |-> [i \in 1..Depth |-> at(i)]]

ValueAt(s, p, number) == LET h == ReadAt(s, p, number).lh IN IF h = EmptyLeaf THEN "" ELSE data[h]

------------------------------------------------------------------------------
C(s) == IF s = 0 THEN EmptyContents ELSE conts[s]

Init == kv = << >> /\ n = 0 /\ conts = <<>> /\ data = [x \in {} |-> ""]

Apply(k, li, c) ==
    LET h == LeafH(li)
        r == SetLeaf(kv, KB[k], h, n + 1)
    IN /\ n < MaxMut /\ n' = n + 1
       /\ kv' = r.s
       /\ conts' = Append(conts, c)
       /\ data' = IF li # "" THEN (data @@ (h :> li)) ELSE data

Set == \E k \in Keys, v \in Vals : Apply(k, v, Put(C(n), k, v))
Delete == \E k \in Keys : Apply(k, "", Put(C(n), k, ""))
\* an update that does not match leaves what is there, and one that matches is a set
Miss == \E k \in Keys : Apply(k, ValOf(C(n), k), C(n))
Next == Set \/ Delete \/ Miss
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Agrees == \A s \in 0..n :
    /\ HashAt(Lookup(kv, s, <<>>), 0) = FullRoot(C(s), KB)
    /\ \A k \in DOMAIN KB :
          LET r == ReadAt(kv, KB[k], s)
          IN /\ ValueAt(kv, KB[k], s) = ValOf(C(s), k)
             /\ FoldPath(KB[k], r.lh, r.path, Depth) = FullRoot(C(s), KB)
             /\ \A d \in 1..Depth : (IF r.path[d] = "" THEN Def(d) ELSE r.path[d]) = FullProof(C(s), KB, k)[d]
\* every node is reachable by its parent's word, and says the hash its parent says
Linked == \A x \in DOMAIN kv :
    LET nd == kv[x]
        d == Len(x[2])
    IN /\ nd.leaf # "" => nd.ln = 0 /\ nd.rn = 0 /\ Up(nd.path, d) = x[2]
       /\ nd.ln # 0 => <<nd.ln, Append(x[2], 0)>> \in DOMAIN kv /\ CalcHash(kv[<<nd.ln, Append(x[2], 0)>>], d + 1) = nd.lh
       /\ nd.rn # 0 => <<nd.rn, Append(x[2], 1)>> \in DOMAIN kv /\ CalcHash(kv[<<nd.rn, Append(x[2], 1)>>], d + 1) = nd.rh
Inv == Agrees /\ Linked
OnlyAdded == [][\A x \in DOMAIN kv : x \in DOMAIN kv' /\ kv'[x] = kv[x]]_vars

------------------------------------------------------------------------------
MCDepth == 3
MCKB == "k1" :> <<0,0,0>> @@ "k2" :> <<0,0,1>> @@ "k3" :> <<0,1,1>> @@ "k4" :> <<1,1,0>> @@ "k5" :> <<1,1,1>>
=============================================================================
