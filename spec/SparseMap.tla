------------------------------ MODULE SparseMap ------------------------------
(* The sparse Merkle tree of a map. Its contents are a function from the       *)
(* present keys to their (non-empty) leaf inputs. FullRoot is the definition;  *)
(* SubHash computes the same by descending only where two or more present keys *)
(* share a prefix. kb is a table of key positions (kb[k] = KeyBits(k)).        *)
EXTENDS Hash, Integers, FiniteSets

EmptyLeaf == LeafH("")

RECURSIVE MkDef(_)
MkDef(n) == IF n = 0 THEN <<EmptyLeaf>>
            ELSE LET t == MkDef(n - 1) IN <<NodeH(t[1], t[1])>> \o t
\* DefTab[d+1] is the hash of an empty subtree at depth d
DefTab == MkDef(Depth)
Def(d) == DefTab[d + 1]

------------------------------------------------------------------------------
RECURSIVE FullNode(_, _, _)
FullNode(c, kb, p) ==
    IF Len(p) = Depth
    THEN LET S == {k \in DOMAIN c : kb[k] = p}
         IN IF S = {} THEN EmptyLeaf ELSE LeafH(c[CHOOSE k \in S : TRUE])
    ELSE NodeH(FullNode(c, kb, Append(p, 0)), FullNode(c, kb, Append(p, 1)))
FullRoot(c, kb) == FullNode(c, kb, <<>>)

\* Audit path of a key: the sibling at every depth
FullProof(c, kb, key) ==
    [d \in 1..Depth |-> FullNode(c, kb, Append(SubSeq(kb[key], 1, d - 1), 1 - kb[key][d]))]

------------------------------------------------------------------------------
\* Hash of the subtree at depth `to` whose only present leaf hangs below it along bits; x is its hash at depth `from`
RECURSIVE FoldUp(_, _, _, _)
FoldUp(bits, x, from, to) ==
    IF from = to THEN x
    ELSE FoldUp(bits, IF bits[from] = 1 THEN NodeH(DefTab[from + 1], x) ELSE NodeH(x, DefTab[from + 1]), from - 1, to)

RECURSIVE SubHash(_, _, _, _)
SubHash(S, d, c, kb) ==
    IF S = {} THEN Def(d)
    ELSE IF \E k \in S : S = {k}
         THEN LET k == CHOOSE x \in S : TRUE IN FoldUp(kb[k], LeafH(c[k]), Depth, d)
         ELSE NodeH(SubHash({k \in S : kb[k][d + 1] = 0}, d + 1, c, kb),
                    SubHash({k \in S : kb[k][d + 1] = 1}, d + 1, c, kb))
Root(c, kb) == SubHash(DOMAIN c, 0, c, kb)

RECURSIVE CommonFrom(_, _, _)
CommonFrom(x, y, i) == IF i > Len(x) \/ i > Len(y) THEN i - 1
                       ELSE IF x[i] # y[i] THEN i - 1 ELSE CommonFrom(x, y, i + 1)
CommonLen(x, y) == CommonFrom(x, y, 1)

\* The elements of the audit path that differ from the default, as <<depth, hash>> (depth counted from 1)
SparseProof(c, kb, key) ==
    LET others == {k \in DOMAIN c : k # key}
        D == {CommonLen(kb[k], kb[key]) : k \in others}
    IN {<<d + 1, SubHash({k \in others : CommonLen(kb[k], kb[key]) = d}, d + 1, c, kb)>> : d \in D}

\* Folding a path of which only some elements are given (pairs <<depth, hash>>), the others being defaults
RECURSIVE FoldSparse(_, _, _, _)
FoldSparse(bits, x, pairs, i) ==
    IF i = 0 THEN x
    ELSE LET P == {j \in 1..Len(pairs) : pairs[j][1] = i}
             s == IF P = {} THEN DefTab[i + 1] ELSE pairs[CHOOSE j \in P : TRUE][2]
         IN FoldSparse(bits, IF bits[i] = 1 THEN NodeH(s, x) ELSE NodeH(x, s), pairs, i - 1)

\* Verification: folding an audit path (a function from depth 1..Depth to a hash, "" standing for the default)
RECURSIVE FoldPath(_, _, _, _)
FoldPath(bits, x, path, i) ==
    IF i = 0 THEN x
    ELSE LET s == IF path[i] = "" THEN Def(i) ELSE path[i]
         IN FoldPath(bits, IF bits[i] = 1 THEN NodeH(s, x) ELSE NodeH(x, s), path, i - 1)
VerifyGet(bits, li, path, root) == Len(path) = Depth /\ FoldPath(bits, LeafH(li), path, Depth) = root

------------------------------------------------------------------------------
(* Mutations: [act, key, hv, li, prev]; the contents after applying one.       *)
ValOf(c, k) == IF k \in DOMAIN c THEN c[k] ELSE ""
Put(c, k, li) == IF li = "" THEN [x \in (DOMAIN c) \ {k} |-> c[x]]
                 ELSE [x \in (DOMAIN c) \cup {k} |-> IF x = k THEN li ELSE c[x]]
ApplyMut(c, m) ==
    CASE m.act = "set" -> Put(c, m.key, m.li)
      [] m.act = "delete" -> Put(c, m.key, "")
      [] m.act = "update" -> IF LeafH(ValOf(c, m.key)) = m.prev THEN Put(c, m.key, m.li) ELSE c
      [] OTHER -> c
EmptyContents == [x \in {} |-> ""]
RECURSIVE ApplyAll(_, _)
ApplyAll(c, ms) == IF ms = <<>> THEN c ELSE ApplyAll(ApplyMut(c, Head(ms)), Tail(ms))
=============================================================================
