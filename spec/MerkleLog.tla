------------------------------ MODULE MerkleLog ------------------------------
(* RFC 6962 section 2.1: Merkle tree hash, audit paths, consistency proofs,    *)
(* and the two verification procedures. A log is the sequence of its leaf      *)
(* hashes. Two definitions of everything are given: the RFC's, by recursion on *)
(* the list, and one over cached complete subtrees (Levels) that trace         *)
(* validation uses because it is fast; MCMerkle shows that they agree.         *)
EXTENDS Hash, Integers, FiniteSets

\* Largest power of two less than n (n >= 2)
RECURSIVE KFrom(_, _)
KFrom(k, n) == IF 2 * k < n THEN KFrom(2 * k, n) ELSE k
K(n) == KFrom(1, n)

IsPow2(n) == \E k \in 0..30 : n = 2^k

Prefix(h, n) == SubSeq(h, 1, n)

------------------------------------------------------------------------------
(* The RFC's definitions *)

RECURSIVE MTH(_)
MTH(h) == IF Len(h) = 1 THEN h[1]
          ELSE LET k == K(Len(h))
               IN NodeH(MTH(SubSeq(h, 1, k)), MTH(SubSeq(h, k + 1, Len(h))))

RECURSIVE APATH(_, _)
APATH(m, h) == IF Len(h) = 1 THEN <<>>
              ELSE LET n == Len(h)
                       k == K(n)
                       left == SubSeq(h, 1, k)
                       right == SubSeq(h, k + 1, n)
                   IN IF m < k THEN Append(APATH(m, left), MTH(right))
                      ELSE Append(APATH(m - k, right), MTH(left))

RECURSIVE CSUBPROOF(_, _, _)
CSUBPROOF(m, h, b) ==
    LET n == Len(h)
    IN IF m = n THEN (IF b THEN <<>> ELSE <<MTH(h)>>)
       ELSE LET k == K(n)
                left == SubSeq(h, 1, k)
                right == SubSeq(h, k + 1, n)
            IN IF m <= k THEN Append(CSUBPROOF(m, left, b), MTH(right))
               ELSE Append(CSUBPROOF(m - k, right, FALSE), MTH(left))
CPROOF(m, h) == CSUBPROOF(m, h, TRUE)

------------------------------------------------------------------------------
(* The same over ranges [a, b): which subtrees a path or proof consists of *)

RECURSIVE PathRanges(_, _, _)
PathRanges(m, a, b) == IF b - a = 1 THEN <<>>
                       ELSE LET k == K(b - a)
                            IN IF m < k THEN Append(PathRanges(m, a, a + k), <<a + k, b>>)
                               ELSE Append(PathRanges(m - k, a + k, b), <<a, a + k>>)

RECURSIVE ProofRanges(_, _, _, _)
ProofRanges(m, a, b, f) ==
    IF m = b - a THEN (IF f THEN <<>> ELSE << <<a, b>> >>)
    ELSE LET k == K(b - a)
         IN IF m <= k THEN Append(ProofRanges(m, a, a + k, f), <<a + k, b>>)
            ELSE Append(ProofRanges(m - k, a + k, b, FALSE), <<a, a + k>>)

(* Levels(h)[d+1][j+1] is the hash of the complete subtree over [j*2^d, (j+1)*2^d) *)
RECURSIVE LevelsFrom(_)
LevelsFrom(x) == IF Len(x) <= 1 THEN <<x>>
                 ELSE <<x>> \o LevelsFrom([j \in 1..(Len(x) \div 2) |-> NodeH(x[2*j - 1], x[2*j])])
Levels(h) == LevelsFrom(h)

RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)

RECURSIVE RangeH(_, _, _)
RangeH(lv, a, b) ==
    LET n == b - a
        d == Log2(n)
    IN IF 2^d = n /\ a % n = 0 THEN lv[d + 1][(a \div n) + 1]
       ELSE LET k == K(n) IN NodeH(RangeH(lv, a, a + k), RangeH(lv, a + k, b))

RootL(lv, n) == IF n = 0 THEN "" ELSE RangeH(lv, 0, n)
PathL(lv, m, n) == LET r == PathRanges(m, 0, n) IN [i \in 1..Len(r) |-> RangeH(lv, r[i][1], r[i][2])]
ProofL(lv, m, n) == LET r == ProofRanges(m, 0, n, TRUE) IN [i \in 1..Len(r) |-> RangeH(lv, r[i][1], r[i][2])]

------------------------------------------------------------------------------
(* What a verifier computes (RFC 9162 section 2.1.3.2 and 2.1.4.2).           *)

RECURSIVE Strip(_, _)      \* shift right until fn is 0 or odd
Strip(fn, sn) == IF fn = 0 \/ fn % 2 = 1 THEN <<fn, sn>> ELSE Strip(fn \div 2, sn \div 2)

RECURSIVE InclFold(_, _, _, _)
InclFold(r, fn, sn, p) ==
    IF p = <<>> THEN <<sn = 0, r>>
    ELSE IF sn = 0 THEN <<FALSE, r>>
    ELSE IF fn = sn \/ fn % 2 = 1
         THEN LET s == Strip(fn, sn)
              IN InclFold(NodeH(Head(p), r), s[1] \div 2, s[2] \div 2, Tail(p))
         ELSE InclFold(NodeH(r, Head(p)), fn \div 2, sn \div 2, Tail(p))

VerifyIncl(leaf, i, n, path, root) ==
    /\ 0 <= i /\ i < n
    /\ LET v == InclFold(leaf, i, n - 1, path) IN v[1] /\ v[2] = root

\* The library's variant, which carries on hashing past the top; with the root of an honest list this decides the same.
RECURSIVE InclFoldLib(_, _, _, _)
InclFoldLib(r, fn, sn, p) ==
    IF p = <<>> THEN <<sn = 0, r>>
    ELSE IF fn = sn \/ fn % 2 = 1
         THEN LET s == Strip(fn, sn)
              IN InclFoldLib(NodeH(Head(p), r), s[1] \div 2, s[2] \div 2, Tail(p))
         ELSE InclFoldLib(NodeH(r, Head(p)), fn \div 2, sn \div 2, Tail(p))
VerifyInclLib(leaf, i, n, path, root) ==
    /\ 0 <= i /\ i < n
    /\ LET v == InclFoldLib(leaf, i, n - 1, path) IN v[1] /\ v[2] = root

RECURSIVE ConsFold(_, _, _, _, _)
ConsFold(fr, sr, fn, sn, p) ==
    IF p = <<>> THEN <<sn = 0, fr, sr>>
    ELSE IF sn = 0 THEN <<FALSE, fr, sr>>
    ELSE IF fn % 2 = 1 \/ fn = sn
         THEN LET s == Strip(fn, sn)
              IN ConsFold(NodeH(Head(p), fr), NodeH(Head(p), sr), s[1] \div 2, s[2] \div 2, Tail(p))
         ELSE ConsFold(fr, NodeH(sr, Head(p)), fn \div 2, sn \div 2, Tail(p))

RECURSIVE StripOnes(_, _)
StripOnes(fn, sn) == IF fn % 2 = 1 THEN StripOnes(fn \div 2, sn \div 2) ELSE <<fn, sn>>

VerifyCons(m, n, path, root1, root2) ==
    /\ 1 <= m /\ m < n
    /\ LET p == IF IsPow2(m) THEN <<root1>> \o path ELSE path
           s == StripOnes(m - 1, n - 1)
       IN /\ p # <<>>
          /\ LET v == ConsFold(p[1], p[1], s[1], s[2], Tail(p))
             IN v[1] /\ v[2] = root1 /\ v[3] = root2
=============================================================================
