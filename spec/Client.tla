--------------------------------- MODULE Client ---------------------------------
(* The client of a log that does not trust the server: what it concludes from    *)
(* what it holds and what it is answered. A head is [n, root]; "none" is held    *)
(* before first use. Every operator gives the client's conclusion for given      *)
(* answers, which are arbitrary; MCClient shows what may be relied upon then.    *)
EXTENDS MerkleLog

Head0(n, root) == [n |-> n, root |-> root]
NoHead == [n |-> -1, root |-> ""]

\* Two heads, in either order; path is the server's proof for the two sizes
ConsCheck(a, b, path) ==
    /\ a.n > 0 /\ b.n > 0
    /\ IF a.n = b.n THEN a.root = b.root
       ELSE IF a.n < b.n THEN VerifyCons(a.n, b.n, path, a.root, b.root)
       ELSE VerifyCons(b.n, a.n, path, b.root, a.root)

\* A head for a size (0: the latest); ans is the head answered. NoHead stands for an error.
VerifiedHead(held, want, ans, path) ==
    IF held # NoHead /\ want # 0 /\ held.n = want THEN held
    ELSE IF held = NoHead \/ held.n <= 0 THEN ans
    ELSE IF ConsCheck(held, ans, path) THEN ans ELSE NoHead
VerifiedLatest(held, ans, path) ==
    LET h == VerifiedHead(held, 0, ans, path)
    IN IF h = NoHead THEN NoHead
       ELSE IF held # NoHead /\ h.n <= held.n THEN held ELSE h

------------------------------------------------------------------------------
(* Audit of the entries between two heads: the stack of complete subtrees       *)

RECURSIVE Merge(_, _)
Merge(st, z) == IF z % 2 = 0 THEN st
                ELSE LET k == Len(st) IN Merge(Append(SubSeq(st, 1, k - 2), NodeH(st[k - 1], st[k])), z \div 2)
RECURSIVE Push(_, _, _)
Push(st, idx, es) == IF es = <<>> THEN st ELSE Push(Merge(Append(st, Head(es)), idx), idx + 1, Tail(es))
RECURSIVE Bag(_)      \* the root over the subtrees of a stack
Bag(st) == IF Len(st) = 1 THEN st[1] ELSE LET k == Len(st) IN Bag(Append(SubSeq(st, 1, k - 2), NodeH(st[k - 1], st[k])))
Rev(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]

\* prev: NoHead or a head; path: the audit path of entry prev.n in the tree of prev.n + 1, that is, the subtrees of prev
StartOK(prev, path) == prev.n <= 0 \/ (Len(path) = Len(PathRanges(prev.n, 0, prev.n + 1)) /\ Bag(Rev(path)) = prev.root)
Audit(prev, head, path, es) ==
    LET m == IF prev.n <= 0 THEN 0 ELSE prev.n
    IN /\ StartOK(prev, path)
       /\ Len(es) = head.n - m
       /\ Bag(Push(IF m = 0 THEN <<>> ELSE Rev(path), m, es)) = head.root
=============================================================================
